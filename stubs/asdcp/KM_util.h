/* Interface stand-in for asdcplib (not installed here): declarations only. */
#ifndef STUB_KM_UTIL_H
#define STUB_KM_UTIL_H
#include <stdint.h>
#include <string.h>
#include <string>
typedef unsigned char byte_t;
typedef uint8_t ui8_t; typedef int8_t i8_t;
typedef uint16_t ui16_t; typedef int16_t i16_t;
typedef uint32_t ui32_t; typedef int32_t i32_t;
typedef uint64_t ui64_t; typedef int64_t i64_t;
namespace Kumu {
const ui32_t Kilobyte = 1024;
const ui32_t Megabyte = Kilobyte * Kilobyte;
const ui32_t UUID_Length = 16;
typedef uint64_t fsize_t;
class Result_t {
public:
	Result_t(int v = 0, int os = 0);
	operator int() const;
	int OsError() const;
	bool Success() const;
	bool Failure() const;
	const char* Label() const;
	const char* Message() const;
	int value, os_error;
};
extern const Result_t RESULT_ENDOFFILE;
extern const Result_t RESULT_OK;
class UUID {
public:
	UUID();
	explicit UUID(byte_t const*);
	byte_t const* Value() const;
	bool DecodeHex(const char*);
	const char* EncodeHex(char*, ui32_t) const;
	const char* EncodeString(char*, ui32_t) const;
	byte_t bytes[UUID_Length];
};
void GenRandomValue(UUID&);
void GenRandomUUID(byte_t*);
const char* base64encode(byte_t const* buf, ui32_t buf_len, char* strbuf, ui32_t strbuf_len);
int hex2bin(const char* str, byte_t* buf, ui32_t buf_len, ui32_t* conv_size);
const char* bin2hex(byte_t const*, ui32_t, char*, ui32_t);
const char* bin2UUIDhex(byte_t const*, ui32_t, char*, ui32_t);
class ByteString {
public:
	ByteString();
	explicit ByteString(ui32_t);
	byte_t* Data();
	byte_t const* RoData() const;
	ui32_t Capacity() const;
	ui32_t Length() const;
};
}
#define ASDCP_SUCCESS(v) (((int)(v) < 0) ? 0 : 1)
#define ASDCP_FAILURE(v) (((int)(v) < 0) ? 1 : 0)
#define KM_SUCCESS(v) ASDCP_SUCCESS(v)
#define KM_FAILURE(v) ASDCP_FAILURE(v)
#endif
