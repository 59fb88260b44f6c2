#ifndef STUB_KM_FILEIO_H
#define STUB_KM_FILEIO_H
#include <asdcp/KM_util.h>
namespace Kumu {
class IFileReader { public: virtual ~IFileReader(); };
class FileReader : public IFileReader {
public:
	FileReader(); ~FileReader();
	Result_t OpenRead(std::string const&) const;
	fsize_t Size() const;
	Result_t Read(byte_t*, ui32_t, ui32_t* = 0) const;
};
class IFileReaderFactory { public: virtual ~IFileReaderFactory(); };
class FileReaderFactory : public IFileReaderFactory { public: ~FileReaderFactory(); };
}
#endif
