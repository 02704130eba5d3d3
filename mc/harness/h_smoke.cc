#include "mc.h"
#include <sofa/pbrpc/pbrpc.h>
#include <sofa/pbrpc/timeout_manager.h>
#include "vecho.pb.h"
using namespace sofa::pbrpc;

struct EchoImpl : public verif::EchoServer {
    int n; EchoImpl() : n(0) {}
    virtual void Echo(google::protobuf::RpcController* c, const verif::EchoRequest* r, verif::EchoResponse* p, google::protobuf::Closure* done) {
        ++n; p->set_id(r->id()); p->set_data(r->data()); p->set_must(1); done->Run();
    }
    virtual void Slow(google::protobuf::RpcController* c, const verif::EchoRequest* r, verif::EchoResponse* p, google::protobuf::Closure* done) { Echo(c, r, p, done); }
};
MC_SCENARIO(echo) { cfg.bound = 1; }
MC_BODY(echo) {
    mc::note("start");
    RpcServerOptions so; so.work_thread_num = 1; so.keep_alive_time = -1;
    RpcServer server(so);
    server.RegisterService(new EchoImpl, true);
    MC_CHECK(server.Start("0.0.0.0:12321"), "start", "server did not start");
    mc::note("server started");
    RpcClientOptions co; co.work_thread_num = 1; co.callback_thread_num = 1;
    RpcClient client(co);
    RpcChannel ch(&client, "127.0.0.1:12321");
    verif::EchoServer_Stub stub(&ch);
    RpcController c; verif::EchoRequest rq; verif::EchoResponse rs;
    rq.set_id(7); rq.set_data("hello"); rq.set_must(1);
    c.SetTimeout(3000);
    stub.Echo(&c, &rq, &rs, NULL);
    MC_CHECK(!c.Failed(), "failed", "call failed: %s", c.ErrorText().c_str());
    MC_CHECK(rs.id() == 7 && rs.data() == "hello", "bad", "wrong response");
    mc::obs("ok");
    mc::note("client stop");
    client.Shutdown();
    server.Stop();
}
