// the callback-registration wrappers
#include "ext/tcp.h"
#include "ext/udp.h"
#include "ext/callbacks.h"
#include "user.h"
using namespace st_asio_wrapper;
typedef user::tcp<ext::tcp::server_socket> my_server_socket;
typedef user::tcp<ext::tcp::client_socket> my_client_socket;
typedef user::hooks<ext::udp::socket> my_udp_socket;
typedef ext::callbacks::s_socket<my_server_socket> cb_server_socket;
typedef ext::callbacks::c_socket<my_client_socket> cb_client_socket;
typedef ext::callbacks::g_socket<my_udp_socket> cb_udp_socket;
typedef ext::callbacks::server<tcp::server_base<cb_server_socket, ext::callbacks::object_pool<object_pool<cb_server_socket> > > > cb_server;
// any function object is acceptable to the registering templates
struct vp_any
{
	template<typename A> int operator()(A*) const;
	template<typename A, typename B> int operator()(A*, const B&) const;
	template<typename A, typename B, typename C> int operator()(A*, const B&, const C&) const;
};
template<typename S> void vp_register(S& s)
{
	vp_any a;
	s.register_obsoleted(a);
	s.register_is_ready(a);
	s.register_send_heartbeat(a);
	s.register_reset(a);
	s.register_on_heartbeat_error(a);
	s.register_on_send_error(a);
	s.register_on_recv_error(a);
	s.register_on_close(a);
	s.register_after_close(a);
#ifdef ST_ASIO_SYNC_DISPATCH
	s.register_on_msg(a);
#endif
	s.register_on_msg_handle(a);
#ifdef ST_ASIO_WANT_MSG_SEND_NOTIFY
	s.register_on_msg_send(a);
#endif
#ifdef ST_ASIO_WANT_ALL_MSG_SEND_NOTIFY
	s.register_on_all_msg_send(a);
#endif
#ifdef ST_ASIO_SHRINK_SEND_BUFFER
	s.register_calc_shrink_size(a);
	s.register_on_msg_discard(a);
#endif
}
template<typename S> void vp_register_tcp(S& s)
{
	vp_any a;
	vp_register(s);
	s.register_on_connect(a);
	s.register_on_unpack_error(a);
	s.register_on_async_shutdown_error(a);
}
void vp_use2(service_pump& sp)
{
	cb_server s(sp);
	boost::asio::io_context io;
	cb_client_socket c(io);
	cb_udp_socket u(io);
	cb_server_socket ss(s);
	vp_any a;
	vp_register_tcp(c);
	vp_register(u);
	vp_register_tcp(ss);
	c.register_prepare_reconnect(a);
	ss.register_take_over(a);
	s.register_async_accept_num(a);
	s.register_start_next_accept(a);
	s.register_on_accept(a);
	s.register_on_accept_error(a);
	s.register_on_create(a);
}
int vp_witness_end;
