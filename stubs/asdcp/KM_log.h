#ifndef STUB_KM_LOG_H
#define STUB_KM_LOG_H
#include <asdcp/KM_util.h>
namespace Kumu {
struct LogEntry { std::string Msg; };
class ILogSink { public: void SetFilterFlag(int); void UnsetFilterFlag(int); };
ILogSink& DefaultLogSink();
const int LOG_ALLOW_ALL = 0xffff;
}
#endif
