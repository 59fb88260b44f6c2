#ifndef STUB_AS_DCP_H
#define STUB_AS_DCP_H
#include <asdcp/KLV.h>
#include <asdcp/KM_fileio.h>
#include <ostream>
#include <vector>
#include <list>
namespace ASDCP {
typedef Kumu::Result_t Result_t;
extern const Result_t RESULT_SFORMAT;
const ui32_t KeyLen = 16;
const ui32_t CBC_BLOCK_SIZE = 16;
const ui32_t UUIDlen = 16;
const ui32_t HMAC_SIZE = 20;
struct Rational { i32_t Numerator; i32_t Denominator; Rational() {} Rational(i32_t n, i32_t d) : Numerator(n), Denominator(d) {} bool operator==(Rational const&) const; bool operator!=(Rational const&) const; };
enum EssenceType_t { ESS_UNKNOWN, ESS_MPEG2_VES, ESS_JPEG_2000, ESS_PCM_24b_48k, ESS_PCM_24b_96k, ESS_TIMED_TEXT, ESS_JPEG_2000_S, ESS_DCDATA_UNKNOWN, ESS_DCDATA_DOLBY_ATMOS };
Result_t EssenceType(std::string const&, EssenceType_t&, Kumu::IFileReaderFactory const&);
enum LabelSet_t { LS_MXF_UNKNOWN, LS_MXF_INTEROP, LS_MXF_SMPTE };
struct WriterInfo {
	byte_t ProductUUID[UUIDlen]; byte_t AssetUUID[UUIDlen]; byte_t ContextID[UUIDlen]; byte_t CryptographicKeyID[UUIDlen];
	bool EncryptedEssence; bool UsesHMAC;
	std::string ProductVersion; std::string CompanyName; std::string ProductName; LabelSet_t LabelSetType;
	WriterInfo();
};
class AESEncContext { public: AESEncContext(); ~AESEncContext(); Result_t InitKey(byte_t const*); Result_t SetIVec(byte_t const*); };
class AESDecContext { public: AESDecContext(); ~AESDecContext(); Result_t InitKey(byte_t const*); Result_t SetIVec(byte_t const*); };
class HMACContext { public: HMACContext(); ~HMACContext(); Result_t InitKey(byte_t const*, LabelSet_t); };
class FrameBuffer {
public:
	FrameBuffer(); virtual ~FrameBuffer();
	Result_t Capacity(ui32_t); ui32_t Capacity() const;
	Result_t SetData(byte_t*, ui32_t); byte_t* Data(); byte_t const* RoData() const;
	ui32_t Size(ui32_t); ui32_t Size() const;
	void FrameNumber(ui32_t); ui32_t FrameNumber() const;
	void PlaintextOffset(ui32_t); ui32_t PlaintextOffset() const;
};
namespace MXF {
	class InterchangeObject { public: virtual ~InterchangeObject(); Kumu::UUID InstanceUID; };
	class OP1aHeader { public: Result_t GetMDObjectByType(byte_t const*, InterchangeObject** = 0); Result_t GetMDObjectsByType(byte_t const*, std::list<InterchangeObject*>&); void AddChildObject(InterchangeObject*); };
	class RIP {};
}
namespace PCM {
	enum ChannelFormat_t { CF_NONE, CF_CFG_1, CF_CFG_2, CF_CFG_3, CF_CFG_4, CF_CFG_5, CF_CFG_6 };
	struct AudioDescriptor { Rational EditRate; Rational AudioSamplingRate; ui32_t Locked; ui32_t ChannelCount; ui32_t QuantizationBits; ui32_t BlockAlign; ui32_t AvgBps; ui32_t LinkedTrackID; ui32_t ContainerDuration; ChannelFormat_t ChannelFormat; };
	ui32_t CalcFrameBufferSize(AudioDescriptor const&);
	ui32_t CalcSamplesPerFrame(AudioDescriptor const&);
	class FrameBuffer : public ASDCP::FrameBuffer { public: FrameBuffer(); FrameBuffer(ui32_t); FrameBuffer(AudioDescriptor const&); ~FrameBuffer(); };
	class MXFWriter { public: MXFWriter(); virtual ~MXFWriter(); MXF::OP1aHeader& OP1aHeader(); Result_t OpenWrite(std::string const&, WriterInfo const&, AudioDescriptor const&, ui32_t = 16384); Result_t WriteFrame(FrameBuffer const&, AESEncContext* = 0, HMACContext* = 0); Result_t Finalize(); };
	class MXFReader { public: MXFReader(Kumu::IFileReaderFactory const&); virtual ~MXFReader(); MXF::OP1aHeader& OP1aHeader(); Result_t OpenRead(std::string const&) const; Result_t Close() const; Result_t FillAudioDescriptor(AudioDescriptor&) const; Result_t FillWriterInfo(WriterInfo&) const; Result_t ReadFrame(ui32_t, FrameBuffer&, AESDecContext* = 0, HMACContext* = 0) const; };
}
namespace JP2K {
	const ui32_t MaxComponents = 3;
	struct ImageComponent_t { ui8_t Ssize, XRsize, YRsize; };
	struct PictureDescriptor { Rational EditRate; ui32_t ContainerDuration; Rational SampleRate; ui32_t StoredWidth; ui32_t StoredHeight; Rational AspectRatio; ui16_t Rsize; ui32_t Xsize, Ysize, XOsize, YOsize, XTsize, YTsize, XTOsize, YTOsize; ui16_t Csize; ImageComponent_t ImageComponents[MaxComponents]; struct { ui8_t CodestyleCoding; } CodingStyleDefault; struct { ui8_t x; } QuantizationDefault; };
	enum StereoscopicPhase_t { SP_LEFT, SP_RIGHT };
	class FrameBuffer : public ASDCP::FrameBuffer { public: FrameBuffer(); FrameBuffer(ui32_t); ~FrameBuffer(); };
	struct SFrameBuffer { FrameBuffer Left; FrameBuffer Right; SFrameBuffer(ui32_t); };
	class CodestreamParser { public: CodestreamParser(); ~CodestreamParser(); Result_t OpenReadFrame(byte_t const*, ui32_t, FrameBuffer&) const; Result_t FillPictureDescriptor(PictureDescriptor&) const; };
	class MXFWriter { public: MXFWriter(); virtual ~MXFWriter(); Result_t OpenWrite(std::string const&, WriterInfo const&, PictureDescriptor const&, ui32_t, bool); Result_t WriteFrame(FrameBuffer const&, AESEncContext*, HMACContext*, std::string* = 0); Result_t FakeWriteFrame(int); Result_t Finalize(); ui64_t Tell() const; };
	class MXFSWriter { public: MXFSWriter(); virtual ~MXFSWriter(); Result_t OpenWrite(std::string const&, WriterInfo const&, PictureDescriptor const&, ui32_t, bool); Result_t WriteFrame(FrameBuffer const&, StereoscopicPhase_t, AESEncContext*, HMACContext*, std::string* = 0); Result_t FakeWriteFrame(int, StereoscopicPhase_t); Result_t Finalize(); ui64_t Tell() const; };
	class MXFReader { public: MXFReader(Kumu::IFileReaderFactory const&); virtual ~MXFReader(); Result_t OpenRead(std::string const&) const; Result_t FillPictureDescriptor(PictureDescriptor&) const; Result_t FillWriterInfo(WriterInfo&) const; Result_t ReadFrame(ui32_t, FrameBuffer&, AESDecContext* = 0, HMACContext* = 0) const; };
	class MXFSReader { public: MXFSReader(Kumu::IFileReaderFactory const&); virtual ~MXFSReader(); Result_t OpenRead(std::string const&) const; Result_t FillPictureDescriptor(PictureDescriptor&) const; Result_t FillWriterInfo(WriterInfo&) const; Result_t ReadFrame(ui32_t, SFrameBuffer&, AESDecContext* = 0, HMACContext* = 0) const; Result_t ReadFrame(ui32_t, StereoscopicPhase_t, FrameBuffer&, AESDecContext* = 0, HMACContext* = 0) const; };
}
namespace MPEG2 {
	enum FrameType_t { FRAME_U, FRAME_I, FRAME_P, FRAME_B };
	struct VideoDescriptor { Rational EditRate; ui32_t FrameRate; Rational SampleRate; ui8_t FrameLayout; ui32_t StoredWidth, StoredHeight; Rational AspectRatio; ui32_t ContainerDuration; };
	class FrameBuffer : public ASDCP::FrameBuffer { public: FrameBuffer(); FrameBuffer(ui32_t); ~FrameBuffer(); void FrameType(FrameType_t); void TemporalOffset(ui8_t); void ClosedGOP(bool); void GOPStart(bool); FrameType_t FrameType() const; ui8_t TemporalOffset() const; bool ClosedGOP() const; bool GOPStart() const; };
	class Parser { public: Parser(); ~Parser(); Result_t OpenRead(std::string const&) const; Result_t FillVideoDescriptor(VideoDescriptor&) const; Result_t ReadFrame(FrameBuffer&) const; };
	class MXFWriter { public: MXFWriter(); virtual ~MXFWriter(); Result_t OpenWrite(std::string const&, WriterInfo const&, VideoDescriptor const&, ui32_t, bool); Result_t WriteFrame(FrameBuffer const&, AESEncContext*, HMACContext*, std::string* = 0); Result_t FakeWriteFrame(int, FrameType_t, bool, bool, ui8_t); Result_t Finalize(); ui64_t Tell() const; };
	class MXFReader { public: MXFReader(Kumu::IFileReaderFactory const&); virtual ~MXFReader(); Result_t OpenRead(std::string const&) const; Result_t FillVideoDescriptor(VideoDescriptor&) const; Result_t FillWriterInfo(WriterInfo&) const; Result_t ReadFrame(ui32_t, FrameBuffer&, AESDecContext* = 0, HMACContext* = 0) const; };
}
namespace TimedText {
	enum MIMEType_t { MT_BIN, MT_PNG, MT_OPENTYPE };
	struct TimedTextResourceDescriptor { byte_t ResourceID[UUIDlen]; MIMEType_t Type; };
	typedef std::list<TimedTextResourceDescriptor> ResourceList_t;
	struct TimedTextDescriptor { Rational EditRate; ui32_t ContainerDuration; byte_t AssetID[UUIDlen]; std::string NamespaceName; std::string EncodingName; ResourceList_t ResourceList; std::string RFC5646LanguageTagList; };
	class FrameBuffer : public ASDCP::FrameBuffer { public: FrameBuffer(); FrameBuffer(ui32_t); ~FrameBuffer(); void AssetID(byte_t const*); void MIMEType(std::string const&); };
	class MXFWriter { public: MXFWriter(); virtual ~MXFWriter(); Result_t OpenWrite(std::string const&, WriterInfo const&, TimedTextDescriptor const&, ui32_t = 16384); Result_t WriteTimedTextResource(std::string const&, AESEncContext* = 0, HMACContext* = 0); Result_t WriteAncillaryResource(FrameBuffer const&, AESEncContext* = 0, HMACContext* = 0); Result_t Finalize(); };
	class MXFReader { public: MXFReader(Kumu::IFileReaderFactory const&); virtual ~MXFReader(); Result_t OpenRead(std::string const&) const; Result_t FillTimedTextDescriptor(TimedTextDescriptor&) const; Result_t FillWriterInfo(WriterInfo&) const; Result_t ReadTimedTextResource(std::string&, AESDecContext* = 0, HMACContext* = 0) const; Result_t ReadAncillaryResource(byte_t const*, FrameBuffer&, AESDecContext* = 0, HMACContext* = 0) const; };
}
namespace DCData { class FrameBuffer : public ASDCP::FrameBuffer { public: FrameBuffer(); FrameBuffer(ui32_t); ~FrameBuffer(); }; }
namespace ATMOS {
	struct AtmosDescriptor { Rational EditRate; ui32_t ContainerDuration; ui32_t FirstFrame; ui16_t MaxChannelCount; ui16_t MaxObjectCount; byte_t AtmosID[UUIDlen]; ui8_t AtmosVersion; byte_t DataEssenceCoding[16]; };
	class MXFWriter { public: MXFWriter(); virtual ~MXFWriter(); Result_t OpenWrite(std::string const&, WriterInfo const&, AtmosDescriptor const&, ui32_t = 16384); Result_t WriteFrame(DCData::FrameBuffer const&, AESEncContext* = 0, HMACContext* = 0); Result_t Finalize(); };
	class MXFReader { public: MXFReader(Kumu::IFileReaderFactory const&); virtual ~MXFReader(); Result_t OpenRead(std::string const&) const; Result_t FillAtmosDescriptor(AtmosDescriptor&) const; Result_t FillWriterInfo(WriterInfo&) const; Result_t ReadFrame(ui32_t, DCData::FrameBuffer&, AESDecContext* = 0, HMACContext* = 0) const; };
}
}
#endif
