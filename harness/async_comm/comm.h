// Stand-in for the async_comm library (not available here): the same interface, without a device.
// Bytes written are recorded; `on_write` lets a test play the receiver.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <vector>
namespace async_comm {
class CommListener
{
 public:
    virtual ~CommListener() = default;
    virtual void receive_callback(const uint8_t* buf, size_t size) = 0;
};
class Comm
{
 public:
    virtual ~Comm() = default;
    virtual bool init() { return true; }
    virtual void close() {}
    void register_listener(CommListener& l) { listener = &l; }
    void send_bytes(const uint8_t* src, size_t len)
    {
        sent.insert(sent.end(), src, src + len);
        if (on_write) on_write();
    }
    void send_byte(uint8_t b) { send_bytes(&b, 1); }
    CommListener* listener = nullptr;
    std::vector<uint8_t> sent;
    std::function<void()> on_write;
};
}  // namespace async_comm
