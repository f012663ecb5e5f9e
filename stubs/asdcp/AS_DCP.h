/* Declarations of the asdcplib interface that libdcp uses; for analysis only (see libcxml/cxml.h) */
#ifndef VERIF_STUB_AS_DCP_H
#define VERIF_STUB_AS_DCP_H

#include <cstdint>
#include <cstddef>
#include <cstring>
#include <cstdio>
#include <list>
#include <map>
#include <string>
#include <vector>
#include <iostream>

typedef uint8_t byte_t;
typedef uint8_t ui8_t;
typedef int8_t i8_t;
typedef uint16_t ui16_t;
typedef int16_t i16_t;
typedef uint32_t ui32_t;
typedef int32_t i32_t;
typedef uint64_t ui64_t;
typedef int64_t i64_t;

namespace Kumu {

class Result_t
{
public:
	Result_t(int v, const char* s, const char* l);
	Result_t();
	Result_t(Result_t const& rhs);
	const Result_t& operator=(Result_t const& rhs);
	~Result_t();
	bool operator==(Result_t const& rhs) const;
	bool operator!=(Result_t const& rhs) const;
	bool Success() const;
	bool Failure() const;
	int Value() const;
	int OsError() const;
	operator int() const;
	const char* Label() const;
	const char* Symbol() const;
	const char* Message() const;
};

extern const Result_t RESULT_FALSE, RESULT_OK, RESULT_FAIL, RESULT_PTR, RESULT_NULL_STR, RESULT_ALLOC, RESULT_PARAM,
	RESULT_NOTIMPL, RESULT_SMALLBUF, RESULT_INIT, RESULT_NOT_FOUND, RESULT_NO_PERM, RESULT_STATE, RESULT_CONFIG,
	RESULT_FILEOPEN, RESULT_BADSEEK, RESULT_READFAIL, RESULT_WRITEFAIL, RESULT_ENDOFFILE, RESULT_FILEEXISTS, RESULT_NOTAFILE;

#define KM_SUCCESS(v) ((v).Success())
#define KM_FAILURE(v) ((v).Failure())

const ui32_t Kilobyte = 1024;
const ui32_t Megabyte = Kilobyte * Kilobyte;
const ui32_t UUID_Length = 16;
typedef i64_t fsize_t;

class UUID
{
public:
	UUID();
	UUID(const byte_t* value);
	const byte_t* Value() const;
	bool DecodeHex(const char* str);
	const char* EncodeHex(char* buf, ui32_t len) const;
	const char* EncodeString(char* buf, ui32_t len) const;
};

class FortunaRNG
{
public:
	FortunaRNG();
	~FortunaRNG();
	const byte_t* FillRandom(byte_t* buf, ui32_t len);
};

template <class T> void GenRandomValue(T& obj);

const char* base64encode(const byte_t* buf, ui32_t buf_len, char* strbuf, ui32_t strbuf_len);
i32_t base64decode(const char* str, byte_t* buf, ui32_t buf_len, ui32_t* char_count);
const char* bin2hex(const byte_t* bin_buf, ui32_t bin_len, char* str_buf, ui32_t str_len);
i32_t hex2bin(const char* str, byte_t* buf, ui32_t buf_len, ui32_t* char_count);
const char* bin2UUIDhex(const byte_t* bin_buf, ui32_t bin_len, char* str_buf, ui32_t str_len);

class ByteString
{
public:
	ByteString();
	explicit ByteString(ui32_t cap);
	ui32_t Capacity() const;
	byte_t* Data();
	const byte_t* RoData() const;
	ui32_t Length() const;
};

class IFileReader {
public:
	virtual ~IFileReader();
	virtual Result_t OpenRead(std::string const& filename) const;
	virtual Result_t Close() const;
	virtual fsize_t Size() const;
	virtual Result_t Seek(Kumu::fsize_t pos = 0) const;
	virtual Result_t Tell(Kumu::fsize_t* pos) const;
	virtual Result_t Read(byte_t*, ui32_t, ui32_t* = 0) const;
};
class FileReader : public IFileReader { public: FileReader(); };
class IFileReaderFactory {
public:
	virtual ~IFileReaderFactory();
	virtual IFileReader* CreateFileReader() const = 0;
};
class FileReaderFactory : public IFileReaderFactory { public: FileReaderFactory(); IFileReader* CreateFileReader() const; };

class ILogSink { public: void UnsetFilterFlag(i32_t); void SetFilterFlag(i32_t); };
ILogSink& DefaultLogSink();
const i32_t LOG_ALLOW_ALL = 0x0fffffff;

}

namespace ASDCP {

using Kumu::Result_t;
using Kumu::RESULT_OK;
using Kumu::RESULT_FAIL;

extern const Result_t RESULT_FORMAT, RESULT_RAW_ESS, RESULT_RAW_FORMAT, RESULT_RANGE, RESULT_CRYPT_CTX, RESULT_LARGE_PTO,
	RESULT_CAPEXTMEM, RESULT_CHECKFAIL, RESULT_HMACFAIL, RESULT_CRYPT_INIT, RESULT_EMPTY_FB, RESULT_KLV_CODING, RESULT_SPHASE, RESULT_SFORMAT;

#define ASDCP_SUCCESS(v) ((v).Success())
#define ASDCP_FAILURE(v) ((v).Failure())

const ui32_t KeyLen = 16;
const ui32_t CBC_KEY_SIZE = 16;
const ui32_t CBC_BLOCK_SIZE = 16;
const ui32_t HMAC_SIZE = 20;
const ui32_t UUIDlen = 16;
const ui32_t DEFAULT_ClipSize = 0;

enum EssenceType_t {
	ESS_UNKNOWN,
	ESS_MPEG2_VES,
	ESS_JPEG_2000,
	ESS_PCM_24b_48k,
	ESS_PCM_24b_96k,
	ESS_TIMED_TEXT,
	ESS_JPEG_2000_S,
	ESS_DCDATA_UNKNOWN,
	ESS_DCDATA_DOLBY_ATMOS,
	ESS_AS02_JPEG_2000,
	ESS_AS02_PCM_24b_48k,
	ESS_AS02_PCM_24b_96k,
	ESS_AS02_TIMED_TEXT,
	ESS_MAX
};

Result_t EssenceType(std::string const& filename, EssenceType_t& type, Kumu::IFileReaderFactory const& factory);

class Rational
{
public:
	i32_t Numerator;
	i32_t Denominator;
	Rational();
	Rational(i32_t n, i32_t d);
	double Quotient() const;
	bool operator==(Rational const& rhs) const;
	bool operator!=(Rational const& rhs) const;
	bool operator<(Rational const& rhs) const;
};

enum LabelSet_t { LS_MXF_UNKNOWN, LS_MXF_INTEROP, LS_MXF_SMPTE, LS_MAX };

struct WriterInfo
{
	byte_t ProductUUID[UUIDlen];
	byte_t AssetUUID[UUIDlen];
	byte_t ContextID[UUIDlen];
	byte_t CryptographicKeyID[UUIDlen];
	bool EncryptedEssence;
	bool UsesHMAC;
	std::string ProductVersion;
	std::string CompanyName;
	std::string ProductName;
	LabelSet_t LabelSetType;
	WriterInfo();
};

class AESEncContext
{
public:
	AESEncContext();
	~AESEncContext();
	Result_t InitKey(const byte_t* key);
	Result_t SetIVec(const byte_t* i_vec);
};

class AESDecContext
{
public:
	AESDecContext();
	~AESDecContext();
	Result_t InitKey(const byte_t* key);
	Result_t SetIVec(const byte_t* i_vec);
};

class HMACContext
{
public:
	HMACContext();
	~HMACContext();
	Result_t InitKey(const byte_t* key, LabelSet_t type);
	void Reset();
};

class FrameBuffer
{
public:
	FrameBuffer();
	virtual ~FrameBuffer();
	Result_t SetData(byte_t* buf_addr, ui32_t buf_len);
	Result_t Capacity(ui32_t cap);
	ui32_t Capacity() const;
	const byte_t* RoData() const;
	byte_t* Data();
	ui32_t Size(ui32_t size);
	ui32_t Size() const;
	void FrameNumber(ui32_t num);
	ui32_t FrameNumber() const;
	void PlaintextOffset(ui32_t ofst);
	ui32_t PlaintextOffset() const;
};

enum MDD_t {
	MDD_AudioChannelLabelSubDescriptor,
	MDD_DBOXMotionCodePrimaryStream,
	MDD_DCAudioChannelCfg_4_WTF,
	MDD_DCAudioChannel_C,
	MDD_DCAudioChannel_HI,
	MDD_DCAudioChannel_L,
	MDD_DCAudioChannel_LFE,
	MDD_DCAudioChannel_Lrs,
	MDD_DCAudioChannel_Ls,
	MDD_DCAudioChannel_Lss,
	MDD_DCAudioChannel_R,
	MDD_DCAudioChannel_Rrs,
	MDD_DCAudioChannel_Rs,
	MDD_DCAudioChannel_Rss,
	MDD_DCAudioChannel_VIN,
	MDD_DCAudioSoundfield_51,
	MDD_DCAudioSoundfield_71,
	MDD_SoundfieldGroupLabelSubDescriptor,
	MDD_WaveAudioDescriptor
};

class Dictionary { public: const byte_t* ul(MDD_t type_id) const; };
const Dictionary& DefaultSMPTEDict();
const Dictionary& DefaultInteropDict();
const Dictionary& DefaultCompositeDict();

class UL
{
public:
	UL();
	UL(const byte_t* value);
	UL(const byte_t* value, ui32_t len);
	const byte_t* Value() const;
	const char* EncodeString(char* buf, ui32_t len) const;
};

namespace MXF {
class UTF16String { public: UTF16String(); UTF16String(const char*); UTF16String const& operator=(const char*); UTF16String const& operator=(std::string const&); const char* EncodeString(char* buf, ui32_t len) const; const char* c_str() const; };
class ISO8String { public: ISO8String(); ISO8String(const char*); ISO8String const& operator=(const char*); ISO8String const& operator=(std::string const&); const char* EncodeString(char* buf, ui32_t len) const; const char* c_str() const; };
template <class T> class optional_property {
public:
	optional_property();
	const T& operator=(const T& rhs);
	template <class U> const T& operator=(U const& rhs);
	bool operator==(const T& rhs) const;
	operator T&();
	T& get();
	const T& const_get() const;
	void set(const T& rhs);
	bool empty() const;
	void reset();
};
template <class T> class Array : public std::list<T> {};
class InterchangeObject
{
public:
	Kumu::UUID InstanceUID;
	optional_property<Kumu::UUID> GenerationUID;
	InterchangeObject(const Dictionary*& d);
	virtual ~InterchangeObject();
};
class MCALabelSubDescriptor : public InterchangeObject
{
public:
	UL MCALabelDictionaryID;
	Kumu::UUID MCALinkID;
	UTF16String MCATagSymbol;
	optional_property<UTF16String> MCATagName;
	optional_property<ui32_t> MCAChannelID;
	optional_property<ISO8String> RFC5646SpokenLanguage;
	MCALabelSubDescriptor(const Dictionary*& d);
};
class AudioChannelLabelSubDescriptor : public MCALabelSubDescriptor
{
public:
	optional_property<Kumu::UUID> SoundfieldGroupLinkID;
	AudioChannelLabelSubDescriptor(const Dictionary* const& d);
	AudioChannelLabelSubDescriptor(const Dictionary*& d);
};
class SoundfieldGroupLabelSubDescriptor : public MCALabelSubDescriptor
{
public:
	SoundfieldGroupLabelSubDescriptor(const Dictionary* const& d);
	SoundfieldGroupLabelSubDescriptor(const Dictionary*& d);
};
class WaveAudioDescriptor : public InterchangeObject
{
public:
	optional_property<UL> ChannelAssignment;
	std::list<Kumu::UUID> SubDescriptors;
	WaveAudioDescriptor(const Dictionary*& d);
};
class OP1aHeader
{
public:
	Result_t GetMDObjectByType(const byte_t* type_id, InterchangeObject** object = 0);
	Result_t GetMDObjectsByType(const byte_t* type_id, std::list<InterchangeObject*>& objects);
	void AddChildObject(InterchangeObject* object);
};
class OPAtomIndexFooter {};
class RIP {};
}

namespace MPEG2 {
enum FrameType_t { FRAME_U = 0x00, FRAME_I = 0x01, FRAME_P = 0x02, FRAME_B = 0x03 };
struct VideoDescriptor
{
	Rational EditRate;
	ui32_t FrameRate;
	Rational SampleRate;
	ui8_t FrameLayout;
	ui32_t StoredWidth;
	ui32_t StoredHeight;
	Rational AspectRatio;
	ui32_t ComponentDepth;
	ui32_t HorizontalSubsampling;
	ui32_t VerticalSubsampling;
	ui8_t ColorSiting;
	ui8_t CodedContentType;
	bool LowDelay;
	ui32_t BitRate;
	ui8_t ProfileAndLevel;
	ui32_t ContainerDuration;
};
class FrameBuffer : public ASDCP::FrameBuffer
{
public:
	FrameBuffer();
	FrameBuffer(ui32_t size);
	void FrameType(FrameType_t);
	FrameType_t FrameType() const;
	void TemporalOffset(ui8_t);
	ui8_t TemporalOffset() const;
	void ClosedGOP(bool);
	bool ClosedGOP() const;
	void GOPStart(bool);
	bool GOPStart() const;
};
class Parser
{
public:
	Parser(Kumu::IFileReaderFactory const& factory);
	Parser();
	Result_t OpenRead(std::string const& filename) const;
	Result_t OpenRead(const unsigned char* data, unsigned int size) const;
	Result_t FillVideoDescriptor(VideoDescriptor&) const;
	Result_t ReadFrame(FrameBuffer&) const;
};
class MXFReader
{
public:
	MXFReader(Kumu::IFileReaderFactory const& factory);
	Result_t OpenRead(std::string const& filename) const;
	Result_t Close() const;
	Result_t FillVideoDescriptor(VideoDescriptor&) const;
	Result_t FillWriterInfo(WriterInfo&) const;
	Result_t ReadFrame(ui32_t frame_number, FrameBuffer&, AESDecContext* = 0, HMACContext* = 0) const;
};
class MXFWriter
{
public:
	Result_t OpenWrite(std::string const& filename, WriterInfo const&, VideoDescriptor const&, ui32_t HeaderSize = 16384, bool overwrite = false);
	Result_t WriteFrame(FrameBuffer const&, AESEncContext* = 0, HMACContext* = 0, std::string* hash = 0);
	Result_t FakeWriteFrame(int size, FrameType_t type, bool gop_start, bool closed_gop, ui8_t temporal_offset);
	Result_t Finalize();
	ui64_t Tell() const;
};
}

namespace PCM {
enum ChannelFormat_t { CF_NONE, CF_CFG_1, CF_CFG_2, CF_CFG_3, CF_CFG_4, CF_CFG_5, CF_CFG_6, CF_MAXIMUM };
struct AudioDescriptor
{
	Rational EditRate;
	Rational AudioSamplingRate;
	ui32_t Locked;
	ui32_t ChannelCount;
	ui32_t QuantizationBits;
	ui32_t BlockAlign;
	ui32_t AvgBps;
	ui32_t LinkedTrackID;
	ui32_t ContainerDuration;
	ChannelFormat_t ChannelFormat;
};
ui32_t CalcFrameBufferSize(AudioDescriptor const&);
class FrameBuffer : public ASDCP::FrameBuffer
{
public:
	FrameBuffer();
	FrameBuffer(ui32_t size);
};
class MXFReader
{
public:
	MXFReader(Kumu::IFileReaderFactory const& factory);
	MXF::OP1aHeader& OP1aHeader();
	Result_t OpenRead(std::string const& filename) const;
	Result_t Close() const;
	Result_t FillAudioDescriptor(AudioDescriptor&) const;
	Result_t FillWriterInfo(WriterInfo&) const;
	Result_t ReadFrame(ui32_t frame_number, FrameBuffer&, AESDecContext* = 0, HMACContext* = 0) const;
};
class MXFWriter
{
public:
	MXF::OP1aHeader& OP1aHeader();
	Result_t OpenWrite(std::string const& filename, WriterInfo const&, AudioDescriptor const&, ui32_t HeaderSize = 16384);
	Result_t WriteFrame(FrameBuffer const&, AESEncContext* = 0, HMACContext* = 0);
	Result_t Finalize();
};
}

namespace JP2K {
const ui32_t MaxComponents = 3;
const ui32_t MaxPrecincts = 32;
const ui32_t MaxDefaults = 256;
enum StereoscopicPhase_t { SP_LEFT, SP_RIGHT };
struct ImageComponent_t { ui8_t Ssize; ui8_t XRsize; ui8_t YRsize; };
struct QuantizationDefault_t { ui8_t Sqcd; ui8_t SPqcd[MaxDefaults]; ui8_t SPqcdLength; };
struct CodingStyleDefault_t {
	ui8_t Scod;
	struct { ui8_t ProgressionOrder; ui8_t NumberOfLayers[sizeof(ui16_t)]; ui8_t MultiCompTransform; } SGcod;
	struct { ui8_t DecompositionLevels; ui8_t CodeblockWidth; ui8_t CodeblockHeight; ui8_t CodeblockStyle; ui8_t Transformation; ui8_t PrecinctSize[MaxPrecincts]; } SPcod;
};
struct PictureDescriptor
{
	Rational EditRate;
	ui32_t ContainerDuration;
	Rational SampleRate;
	ui32_t StoredWidth;
	ui32_t StoredHeight;
	Rational AspectRatio;
	ui16_t Rsize;
	ui32_t Xsize;
	ui32_t Ysize;
	ui32_t XOsize;
	ui32_t YOsize;
	ui32_t XTsize;
	ui32_t YTsize;
	ui32_t XTOsize;
	ui32_t YTOsize;
	ui16_t Csize;
	ImageComponent_t ImageComponents[MaxComponents];
	CodingStyleDefault_t CodingStyleDefault;
	QuantizationDefault_t QuantizationDefault;
};
class FrameBuffer : public ASDCP::FrameBuffer
{
public:
	FrameBuffer();
	FrameBuffer(ui32_t size);
};
struct SFrameBuffer
{
	FrameBuffer Left;
	FrameBuffer Right;
	SFrameBuffer(ui32_t size);
};
class CodestreamParser
{
public:
	Result_t OpenReadFrame(std::string const& filename, FrameBuffer&) const;
	Result_t OpenReadFrame(const unsigned char* data, unsigned int size, FrameBuffer&) const;
	Result_t FillPictureDescriptor(PictureDescriptor&) const;
};
class MXFReader
{
public:
	MXFReader(Kumu::IFileReaderFactory const& factory);
	Result_t OpenRead(std::string const& filename) const;
	Result_t Close() const;
	Result_t FillPictureDescriptor(PictureDescriptor&) const;
	Result_t FillWriterInfo(WriterInfo&) const;
	Result_t ReadFrame(ui32_t frame_number, FrameBuffer&, AESDecContext* = 0, HMACContext* = 0) const;
};
class MXFWriter
{
public:
	Result_t OpenWrite(std::string const& filename, WriterInfo const&, PictureDescriptor const&, ui32_t HeaderSize = 16384, bool overwrite = false);
	Result_t WriteFrame(FrameBuffer const&, AESEncContext* = 0, HMACContext* = 0, std::string* hash = 0);
	Result_t FakeWriteFrame(int size);
	Result_t Finalize();
	ui64_t Tell() const;
};
class MXFSReader
{
public:
	MXFSReader(Kumu::IFileReaderFactory const& factory);
	Result_t OpenRead(std::string const& filename) const;
	Result_t Close() const;
	Result_t FillPictureDescriptor(PictureDescriptor&) const;
	Result_t FillWriterInfo(WriterInfo&) const;
	Result_t ReadFrame(ui32_t frame_number, SFrameBuffer&, AESDecContext* = 0, HMACContext* = 0) const;
	Result_t ReadFrame(ui32_t frame_number, StereoscopicPhase_t, FrameBuffer&, AESDecContext* = 0, HMACContext* = 0) const;
};
class MXFSWriter
{
public:
	Result_t OpenWrite(std::string const& filename, WriterInfo const&, PictureDescriptor const&, ui32_t HeaderSize = 16384, bool overwrite = false);
	Result_t WriteFrame(SFrameBuffer const&, AESEncContext* = 0, HMACContext* = 0);
	Result_t WriteFrame(FrameBuffer const&, StereoscopicPhase_t, AESEncContext* = 0, HMACContext* = 0, std::string* hash = 0);
	Result_t FakeWriteFrame(int size, StereoscopicPhase_t);
	Result_t Finalize();
	ui64_t Tell() const;
};
}

namespace TimedText {
enum MIMEType_t { MT_BIN, MT_PNG, MT_OPENTYPE };
struct TimedTextResourceDescriptor
{
	byte_t ResourceID[UUIDlen];
	MIMEType_t Type;
	TimedTextResourceDescriptor();
};
typedef std::list<TimedTextResourceDescriptor> ResourceList_t;
struct TimedTextDescriptor
{
	Rational EditRate;
	ui32_t ContainerDuration;
	byte_t AssetID[UUIDlen];
	std::string NamespaceName;
	std::string EncodingName;
	ResourceList_t ResourceList;
	std::string RFC5646LanguageTagList;
	TimedTextDescriptor();
};
class FrameBuffer : public ASDCP::FrameBuffer
{
public:
	FrameBuffer();
	FrameBuffer(ui32_t size);
	void AssetID(const byte_t*);
	const byte_t* AssetID() const;
	void MIMEType(std::string const&);
	std::string const& MIMEType() const;
};
class MXFReader
{
public:
	MXFReader(Kumu::IFileReaderFactory const& factory);
	Result_t OpenRead(std::string const& filename) const;
	Result_t Close() const;
	Result_t FillTimedTextDescriptor(TimedTextDescriptor&) const;
	Result_t FillWriterInfo(WriterInfo&) const;
	Result_t ReadTimedTextResource(FrameBuffer&, AESDecContext* = 0, HMACContext* = 0) const;
	Result_t ReadTimedTextResource(std::string& s, AESDecContext* = 0, HMACContext* = 0) const;
	Result_t ReadAncillaryResource(const byte_t* uuid, FrameBuffer&, AESDecContext* = 0, HMACContext* = 0) const;
};
class MXFWriter
{
public:
	Result_t OpenWrite(std::string const& filename, WriterInfo const&, TimedTextDescriptor const&, ui32_t HeaderSize = 16384);
	Result_t WriteTimedTextResource(std::string const& doc, AESEncContext* = 0, HMACContext* = 0);
	Result_t WriteAncillaryResource(FrameBuffer const&, AESEncContext* = 0, HMACContext* = 0);
	Result_t Finalize();
};
}

namespace DCData {
struct DCDataDescriptor
{
	Rational EditRate;
	ui32_t ContainerDuration;
	byte_t AssetID[UUIDlen];
	byte_t DataEssenceCoding[UUIDlen];
};
class FrameBuffer : public ASDCP::FrameBuffer
{
public:
	FrameBuffer();
	FrameBuffer(ui32_t size);
};
}

namespace ATMOS {
struct AtmosDescriptor : public DCData::DCDataDescriptor
{
	ui32_t FirstFrame;
	ui16_t MaxChannelCount;
	ui16_t MaxObjectCount;
	byte_t AtmosID[UUIDlen];
	ui8_t AtmosVersion;
};
class MXFReader
{
public:
	MXFReader(Kumu::IFileReaderFactory const& factory);
	Result_t OpenRead(std::string const& filename) const;
	Result_t Close() const;
	Result_t FillAtmosDescriptor(AtmosDescriptor&) const;
	Result_t FillWriterInfo(WriterInfo&) const;
	Result_t ReadFrame(ui32_t frame_number, DCData::FrameBuffer&, AESDecContext* = 0, HMACContext* = 0) const;
};
class MXFWriter
{
public:
	Result_t OpenWrite(std::string const& filename, WriterInfo const&, AtmosDescriptor const&, ui32_t HeaderSize = 16384);
	Result_t WriteFrame(DCData::FrameBuffer const&, AESEncContext* = 0, HMACContext* = 0);
	Result_t Finalize();
};
}

}

#endif
