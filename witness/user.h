// Stand-ins for application classes: every hook an application has to (or usually does) supply is declared
// and not defined, so the analysis treats it as unknown code that may do anything.
#ifndef VP_USER_H
#define VP_USER_H
namespace user {
template<typename Base> class hooks : public Base
{
public:
	template<typename Arg> hooks(Arg& arg) : Base(arg) {}
	template<typename Arg1, typename Arg2> hooks(Arg1& arg1, Arg2& arg2) : Base(arg1, arg2) {}
protected:
#ifdef ST_ASIO_DISPATCH_BATCH_MSG
	virtual size_t on_msg_handle(typename Base::out_queue_type& msg_can);
#else
	virtual bool on_msg_handle(typename Base::out_msg_type& msg);
#endif
#ifdef ST_ASIO_SYNC_DISPATCH
	virtual size_t on_msg(st_asio_wrapper::list<typename Base::out_msg_type>& msg_can);
#endif
#ifdef ST_ASIO_WANT_MSG_SEND_NOTIFY
	virtual void on_msg_send(typename Base::in_msg_type& msg);
#endif
#ifdef ST_ASIO_WANT_ALL_MSG_SEND_NOTIFY
	virtual void on_all_msg_send(typename Base::in_msg_type& msg);
#endif
};
template<typename Base> class tcp : public hooks<Base>
{
public:
	template<typename Arg> tcp(Arg& arg) : hooks<Base>(arg) {}
	template<typename Arg1, typename Arg2> tcp(Arg1& arg1, Arg2& arg2) : hooks<Base>(arg1, arg2) {}
protected:
	virtual void on_connect();
#if defined(ST_ASIO_WANT_BATCH_MSG_SEND_NOTIFY) && !defined(ST_ASIO_WANT_MSG_SEND_NOTIFY)
	virtual void on_msg_send(typename Base::in_container_type& msg_can);
#endif
};
} // namespace
#endif
