#ifndef STUB_METADATA_H
#define STUB_METADATA_H
#include <asdcp/AS_DCP.h>
#include <vector>
namespace ASDCP { namespace MXF {
template <class T> struct optional_property { optional_property(); template <class U> optional_property& operator=(U const&); T const& get() const; bool empty() const; };
class ISO8String : public std::string { public: ISO8String& operator=(std::string const&); bool EncodeString(char*, ui32_t) const; };
class UTF16String : public std::string { public: UTF16String& operator=(const char*); UTF16String& operator=(std::string const&); const char* EncodeString(char*, ui32_t) const; };
class WaveAudioDescriptor : public InterchangeObject { public: UL ChannelAssignment; std::vector<Kumu::UUID> SubDescriptors; };
class MCALabelSubDescriptor : public InterchangeObject { public: MCALabelSubDescriptor(Dictionary const*); UL MCALabelDictionaryID; Kumu::UUID MCALinkID; UTF16String MCATagSymbol; optional_property<UTF16String> MCATagName; optional_property<ui32_t> MCAChannelID; optional_property<ISO8String> RFC5646SpokenLanguage; };
class AudioChannelLabelSubDescriptor : public MCALabelSubDescriptor { public: AudioChannelLabelSubDescriptor(Dictionary const*); optional_property<Kumu::UUID> SoundfieldGroupLinkID; };
class SoundfieldGroupLabelSubDescriptor : public MCALabelSubDescriptor { public: SoundfieldGroupLabelSubDescriptor(Dictionary const*); };
} }
#endif
