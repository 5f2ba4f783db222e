"""name -> (source, C++ standard, extra flags).  "demo:" sources live in /repo and use their makefile's own flags."""
SR = ["-DST_ASIO_SYNC_SEND", "-DST_ASIO_SYNC_RECV"]
UNITS = {
    # the library in its default configuration, and in every configuration that changes code
    "core": ("core.cpp", 98, []),
    "passive": ("core.cpp", 98, ["-DST_ASIO_PASSIVE_RECV", "-DST_ASIO_FULL_STATISTIC", "-DST_ASIO_HEARTBEAT_INTERVAL=5",
                                 "-DST_ASIO_WANT_MSG_SEND_NOTIFY", "-DST_ASIO_RESTORE_OBJECT", "-DST_ASIO_AVOID_AUTO_STOP_SERVICE"]),
    "sync": ("core.cpp", 98, SR + ["-DST_ASIO_REUSE_OBJECT", "-DST_ASIO_ALIGNED_TIMER", "-DST_ASIO_DECREASE_THREAD_AT_RUNTIME",
                                   "-DST_ASIO_WANT_MSG_SEND_NOTIFY", "-DST_ASIO_WANT_ALL_MSG_SEND_NOTIFY"]),
    "psync": ("core.cpp", 98, SR + ["-DST_ASIO_PASSIVE_RECV", "-DST_ASIO_SYNC_DISPATCH", "-DST_ASIO_SHRINK_SEND_BUFFER",
                                    "-DST_ASIO_DECREASE_THREAD_AT_RUNTIME", "-DST_ASIO_AVOID_AUTO_STOP_SERVICE"]),
    "batch": ("core.cpp", 98, ["-DST_ASIO_DISPATCH_BATCH_MSG", "-DST_ASIO_SYNC_DISPATCH", "-DST_ASIO_WANT_ALL_MSG_SEND_NOTIFY",
                               "-DST_ASIO_WANT_BATCH_MSG_SEND_NOTIFY",
                               "-DST_ASIO_CLEAR_OBJECT_INTERVAL=60", "-DST_ASIO_HUGE_MSG", "-DST_ASIO_SHRINK_SEND_BUFFER",
                               "-DST_ASIO_SHARED_MUTEX_TYPE=boost::shared_mutex", "-DST_ASIO_SHARED_LOCK_TYPE=boost::shared_lock"]),
    "scatter": ("core.cpp", 98, ["-DST_ASIO_SCATTERED_RECV_BUFFER", "-DST_ASIO_INPUT_QUEUE=non_lock_queue", "-DST_ASIO_ALWAYS_SEND_HEARTBEAT",
                                 "-DST_ASIO_DELAY_CLOSE=5", "-DST_ASIO_EXPOSE_SEND_INTERFACE", "-DST_ASIO_NO_TRY_CATCH",
                                 "-DST_ASIO_RECV_BUFFER_TYPE=std::vector<boost::asio::mutable_buffer>"]),
    "callbacks": ("callbacks.cpp", 98, []),
    "cbpassive": ("callbacks.cpp", 98, ["-DST_ASIO_PASSIVE_RECV", "-DST_ASIO_SYNC_DISPATCH", "-DST_ASIO_DISPATCH_BATCH_MSG", "-DST_ASIO_WANT_MSG_SEND_NOTIFY", "-DST_ASIO_WANT_ALL_MSG_SEND_NOTIFY", "-DST_ASIO_SHRINK_SEND_BUFFER"]),
    "ssl": ("ssl.cpp", 98, []),
    "ws": ("ws.cpp", 11, []),
    "wssync": ("ws.cpp", 11, SR + ["-DST_ASIO_PASSIVE_RECV"]),
    "sslws": ("sslws.cpp", 11, []),
    "rudp": ("rudp.cpp", 98, []),
    "file_server": ("demo:file_server/file_server.cpp", 98, []),
    "file_client": ("demo:file_client/file_client.cpp", 98, []),
}
LIB = ["core", "passive", "sync", "psync", "batch", "scatter", "callbacks", "cbpassive", "ssl", "ws", "wssync", "sslws", "rudp"]
DEMO = ["file_server", "file_client"]
ALL = LIB + DEMO
