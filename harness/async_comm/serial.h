#pragma once
#include <string>
#include "async_comm/comm.h"
namespace async_comm {
// the device a test plays: opened by init(), told when the program closes it
struct Device
{
    std::function<void(Comm&)> opened, closing;
};
inline Device device;
class Serial : public Comm
{
 public:
    Serial(std::string, unsigned int) {}
    bool init() override
    {
        if (device.opened) device.opened(*this);
        return true;
    }
    void close() override
    {
        if (device.closing) device.closing(*this);
    }
};
}  // namespace async_comm
