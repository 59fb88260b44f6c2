/* Enough of the library that stores frames to see what it is given */
#ifndef ASDCP_STANDIN_H
#define ASDCP_STANDIN_H
#include <asdcp/AS_DCP.h>
#include <asdcp/KM_prng.h>
#include <cstring>
#include <map>
#include <string>
#include <vector>

struct Store
{
	std::vector<unsigned char> bytes;	///< of all frames, one after another
	int frames = 0, opened = 0, finished = 0;
	int samples = 1;			///< in each frame
	std::string failing;			///< what fails
	std::string name;			///< of the file opened
	ASDCP::PCM::AudioDescriptor desc;
	/* for reading */
	std::vector<unsigned char> frame;
	int asked = -1, channels = 0, bits = 0;
};

static Store store;
static std::map<ASDCP::FrameBuffer const*, std::pair<std::vector<unsigned char>, unsigned>> buffers;

static Kumu::Result_t outcome(char const* what) { return Kumu::Result_t(store.failing == what ? -1 : 0); }

namespace Kumu {
Result_t::Result_t(int v, int os) : value(v), os_error(os) {}
Result_t::operator int() const { return value; }
int Result_t::OsError() const { return os_error; }
bool Result_t::Success() const { return value >= 0; }
bool Result_t::Failure() const { return value < 0; }
const char* Result_t::Label() const { return ""; }
const char* Result_t::Message() const { return ""; }

int hex2bin(const char* str, byte_t* buf, ui32_t len, ui32_t* n)
{
	*n = 0;
	int half = 0;
	for (; *str && *n < len; ++str) {
		char const* digits = "0123456789abcdef";
		auto d = strchr(digits, tolower(*str));
		if (!d) {
			continue;
		}
		if (half == 0) {
			buf[*n] = (d - digits) << 4;
			half = 1;
		} else {
			buf[(*n)++] |= d - digits;
			half = 0;
		}
	}
	return 0;
}

IFileReaderFactory::~IFileReaderFactory() {}
FileReaderFactory::~FileReaderFactory() {}

UUID::UUID() {}
UUID::UUID(byte_t const* b) { memcpy(bytes, b, sizeof bytes); }
byte_t const* UUID::Value() const { return bytes; }
bool UUID::DecodeHex(const char* s) { ui32_t n; hex2bin(s, bytes, sizeof bytes, &n); return n == sizeof bytes; }
}

namespace ASDCP {
FrameBuffer::FrameBuffer() { buffers[this] = {}; }
FrameBuffer::~FrameBuffer() { buffers.erase(this); }
Result_t FrameBuffer::Capacity(ui32_t n) { buffers[this].first.resize(n); return Result_t(); }
ui32_t FrameBuffer::Capacity() const { return buffers[this].first.size(); }
byte_t* FrameBuffer::Data() { return buffers[this].first.data(); }
byte_t const* FrameBuffer::RoData() const { return buffers[this].first.data(); }
ui32_t FrameBuffer::Size(ui32_t n) { return buffers[this].second = n; }
ui32_t FrameBuffer::Size() const { return buffers[this].second; }
WriterInfo::WriterInfo() {}
namespace PCM {
FrameBuffer::FrameBuffer() {}
FrameBuffer::FrameBuffer(ui32_t n) { Capacity(n); }
FrameBuffer::~FrameBuffer() {}
ui32_t CalcFrameBufferSize(AudioDescriptor const& d) { return d.BlockAlign * store.samples; }
MXFWriter::MXFWriter() {}
MXFWriter::~MXFWriter() {}
Result_t MXFWriter::OpenWrite(std::string const& n, WriterInfo const&, AudioDescriptor const& d, ui32_t)
{
	++store.opened;
	store.name = n;
	store.desc = d;
	return outcome("open");
}
Result_t MXFWriter::WriteFrame(FrameBuffer const& b, AESEncContext*, HMACContext*)
{
	auto r = outcome("write");
	if (r >= 0) {
		store.bytes.insert(store.bytes.end(), b.RoData(), b.RoData() + b.Size());
		++store.frames;
	}
	return r;
}
Result_t MXFWriter::Finalize() { ++store.finished; return outcome("finalize"); }
MXFReader::MXFReader(Kumu::IFileReaderFactory const&) {}
MXFReader::~MXFReader() {}
Result_t MXFReader::ReadFrame(ui32_t n, FrameBuffer& b, AESDecContext*, HMACContext*) const
{
	store.asked = n;
	b.Capacity(store.frame.size());
	if (!store.frame.empty()) {
		memcpy(b.Data(), store.frame.data(), store.frame.size());
	}
	b.Size(store.frame.size());
	return outcome("read");
}
Result_t MXFReader::FillAudioDescriptor(AudioDescriptor& d) const
{
	d.ChannelCount = store.channels;
	d.QuantizationBits = store.bits;
	return Result_t();
}
}
}
#endif
