// A message handler for the transport: the transport calls raft_server::process_req; the link redirects that call here
// (--wrap) so that the harness sees what is delivered and decides the answer.
#pragma once
#include "unit.hpp"
#include "cornerstone.hxx"
namespace unit
{
struct FakeHandler
{
    std::function<cornerstone::ptr<cornerstone::resp_msg>(cornerstone::req_msg&)> fn;
    std::atomic<long>* alive;
    explicit FakeHandler(std::atomic<long>* a = nullptr) : alive(a) { if (alive) ++*alive; }
    ~FakeHandler() { if (alive) --*alive; }
};
static cornerstone::ptr<cornerstone::raft_server> as_handler(const std::shared_ptr<FakeHandler>& f)
{
    return cornerstone::ptr<cornerstone::raft_server>(f, reinterpret_cast<cornerstone::raft_server*>(f.get()));
}
} // namespace unit
extern "C" cornerstone::ptr<cornerstone::resp_msg> __wrap__ZN11cornerstone11raft_server11process_reqERNS_7req_msgE(void* self, cornerstone::req_msg& req)
{
    return static_cast<unit::FakeHandler*>(self)->fn(req);
}
