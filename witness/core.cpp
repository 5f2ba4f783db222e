// TCP, unix domain, SOCKS, UDP, pools, pumps, packers, unpackers: the whole plain library
#include "ext/tcp.h"
#include "ext/udp.h"
#include "ext/callbacks.h"
#include "user.h"
using namespace st_asio_wrapper;
template<typename T> struct use {enum {n = sizeof(T)};};

typedef user::tcp<ext::tcp::server_socket> my_server_socket;
typedef user::tcp<ext::tcp::client_socket> my_client_socket;
typedef user::tcp<ext::tcp::unix_server_socket> my_unix_server_socket;
typedef user::tcp<ext::tcp::unix_client_socket> my_unix_client_socket;
typedef user::tcp<ext::tcp::proxy::socks4::client_socket> my_socks4_socket;
typedef user::tcp<ext::tcp::proxy::socks5::client_socket> my_socks5_socket;
typedef user::hooks<ext::udp::socket> my_udp_socket;
typedef user::hooks<ext::udp::unix_socket> my_unix_udp_socket;

typedef tcp::server_base<my_server_socket> my_server;
typedef tcp::multi_client_base<my_client_socket> my_client;
typedef tcp::single_client_base<my_client_socket> my_single_client;
typedef tcp::unix_server_base<my_unix_server_socket> my_unix_server;
typedef udp::single_socket_service_base<my_udp_socket> my_single_udp;
typedef udp::multi_socket_service_base<my_udp_socket> my_multi_udp;

int vp_use()
{
	return
	use<my_server>::n + use<my_client>::n + use<my_single_client>::n +
	use<my_unix_server>::n + use<tcp::single_client_base<my_unix_client_socket> >::n + use<tcp::multi_client_base<my_unix_client_socket> >::n +
	use<tcp::multi_client_base<my_socks4_socket> >::n + use<tcp::multi_client_base<my_socks5_socket> >::n +
	use<tcp::single_client_base<my_socks4_socket> >::n + use<tcp::single_client_base<my_socks5_socket> >::n +
	use<my_single_udp>::n + use<my_multi_udp>::n +
	use<udp::single_socket_service_base<my_unix_udp_socket> >::n + use<udp::multi_socket_service_base<my_unix_udp_socket> >::n +
	use<single_service_pump<my_server> >::n + use<single_service_pump<my_single_client> >::n +
	use<ext::packer<> >::n + use<ext::packer<ext::string_buffer> >::n + use<ext::packer2<> >::n + use<ext::packer2<unique_buffer<std::string>, std::string> >::n + use<ext::fixed_length_packer>::n + use<ext::prefix_suffix_packer>::n +
	use<ext::unpacker<> >::n + use<ext::unpacker2<> >::n + use<ext::flexible_unpacker<> >::n + use<ext::udp_unpacker>::n + use<ext::udp_unpacker2<> >::n +
	use<ext::non_copy_unpacker>::n + use<ext::fixed_length_unpacker>::n + use<ext::prefix_suffix_unpacker>::n +
	use<ext::stream_unpacker>::n + use<dummy_packer<std::string> >::n + use<dummy_unpacker<std::string> >::n +
	use<unique_buffer<ext::string_buffer> >::n + use<shared_buffer<ext::string_buffer> >::n + use<shared_buffer<i_buffer> >::n + use<non_lock_queue<list<obj_with_begin_time<std::string> > > >::n +
	use<lock_queue<list<obj_with_begin_time<std::string> > > >::n;
}
void vp_use2(my_server& s, my_client& c, service_pump& sp, my_client_socket& cs, my_udp_socket& us)
{
	boost::asio::io_context io;
	timer<executor> t(io);
	use<ext::callbacks::server<my_server> >::n;
	my_client_socket a(io);
	my_unix_client_socket b(io);
	my_socks4_socket s4(io);
	my_socks5_socket s5(io);
	my_udp_socket u(io);
	my_unix_udp_socket uu(io);
	my_server_socket ss(s);
	my_server srv(sp);
	my_client cli(sp);
	my_single_client sc(sp);
	my_single_udp su(sp);
	my_multi_udp mu(sp);
	single_service_pump<my_server> ssp;
	single_service_pump<my_single_client> ssc;
}
int vp_witness_end;
