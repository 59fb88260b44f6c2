#ifndef STUB_KLV_H
#define STUB_KLV_H
#include <asdcp/KM_util.h>
namespace ASDCP {
class UL { public: UL(); UL(byte_t const*); const char* EncodeString(char*, ui32_t) const; };
enum MDD_t {
	MDD_DCAudioChannel_L, MDD_DCAudioChannel_R, MDD_DCAudioChannel_C, MDD_DCAudioChannel_LFE, MDD_DCAudioChannel_Ls,
	MDD_DCAudioChannel_Lss, MDD_DCAudioChannel_Rs, MDD_DCAudioChannel_Rss, MDD_DCAudioChannel_HI, MDD_DCAudioChannel_VIN,
	MDD_DCAudioChannel_Lrs, MDD_DCAudioChannel_Rrs, MDD_DBOXMotionCodePrimaryStream, MDD_WaveAudioDescriptor,
	MDD_DCAudioSoundfield_71, MDD_DCAudioSoundfield_51, MDD_DCAudioChannelCfg_4_WTF,
	MDD_SoundfieldGroupLabelSubDescriptor, MDD_AudioChannelLabelSubDescriptor
};
class Dictionary { public: const byte_t* ul(MDD_t) const; };
Dictionary const& DefaultSMPTEDict();
}
#endif
