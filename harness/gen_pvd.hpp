// Model of pvData types and values, generators for them, bridges to the real
// objects and an independent reference encoder of the wire format.
#ifndef GEN_PVD_HPP
#define GEN_PVD_HPP
#include "pbt.hpp"
#include <functional>
#include <memory>
#include <map>
#include <set>
#include <pv/pvData.h>
#include <pv/pvIntrospect.h>
#include <pv/byteBuffer.h>
#include <pv/bitSet.h>
#include <pv/serialize.h>
#include <pv/serializeHelper.h>
#include <pv/standardField.h>
#include <pv/standardPVField.h>
#include <pv/valueBuilder.h>
#include <pv/convert.h>
#include <pv/status.h>

namespace gp {
namespace pvd = epics::pvData;
using pbt::Ctx;

enum Kind { KScalar, KBString, KSArray, KStruct, KUnion, KVariant, KStructArr, KUnionArr, KVariantArr };
struct T; typedef std::shared_ptr<const T> TP;
struct T {
    Kind k = KScalar;
    pvd::ScalarType st = pvd::pvInt;
    int cls = 0;            // array size class: 0 variable 1 bounded 2 fixed
    size_t bound = 0;       // array bound or bounded-string length
    std::string id;         // structures and unions
    std::vector<std::string> names;
    std::vector<TP> kids;   // members, or the element type of a struct/union array
};
struct V; typedef std::shared_ptr<V> VP;
struct V {
    TP t;
    uint64_t num = 0;       // numeric scalar: raw bits in the low bytes
    std::string str;
    std::vector<uint64_t> nums;
    std::vector<std::string> strs;
    std::vector<VP> kids;   // members / elements (may be null) / the union's value (may be null)
    int sel = -1;           // union selection
};

struct TypeOpts {
    int depth = 3; int nodes = 14; 
    bool unions = true, variants = true, arrays = true, compoundArrays = true, bounded = true, fixed = true, bstring = true, ids = true, emptyStructs = true;
    bool wide = true;   // sometimes many members
};
struct ValOpts {
    size_t maxLen = 6; bool big = true; bool nulls = true; bool nan = true; bool anyBytes = true; int variantDepth = 2;
    bool fixedFull = true; // fixed-size arrays have exactly their size (else may also be empty)
};

TP mkScalar(pvd::ScalarType st);
TP mkSArray(pvd::ScalarType st, int cls = 0, size_t bound = 0);
TP mkStruct(const std::vector<std::string>& n, const std::vector<TP>& k, const std::string& id = "structure");
TP mkUnion(const std::vector<std::string>& n, const std::vector<TP>& k, const std::string& id = "union");
TP mkKind(Kind k);                       // KVariant, KVariantArr
TP mkArr(Kind k, TP elem);               // KStructArr, KUnionArr
TP mkBString(size_t n);

TP genType(Ctx& c, const TypeOpts& o = TypeOpts());
TP genStruct(Ctx& c, const TypeOpts& o = TypeOpts());
TP genUnion(Ctx& c, const TypeOpts& o = TypeOpts());
std::string genName(Ctx& c, const std::set<std::string>& used);
pvd::ScalarType genScalarType(Ctx& c);

size_t width(pvd::ScalarType st);        // bytes; 0 for string
uint64_t genNum(Ctx& c, pvd::ScalarType st, bool nan = true);
// values which are large in one respect: a long string, an array of many elements, many members, deep nesting, long names
struct Large { TP t; VP v; std::string what; size_t n; std::function<void(VP&)> touch; /* changes one part, no matter how far inside */ };
Large genLarge(Ctx& c, size_t maxN = 140000);
Large genLarge(Ctx& c, int kind, size_t maxN);
enum { LString, LNumbers, LStrings, LStructs, LUnions, LVariants, LWide, LUnion, LDeep, LNames, LKinds };
size_t genLargeN(Ctx& c, size_t maxN); // around powers of two, or anything up to maxN
std::string genStr(Ctx& c, size_t maxLen = 20, bool anyBytes = true, bool big = false);
VP genValue(Ctx& c, TP t, const ValOpts& o = ValOpts());
// change one thing in v (in place) so that it differs; false if impossible
bool mutate(Ctx& c, VP v, const ValOpts& o, std::string* what = 0);
VP clone(const VP& v);
VP defaultValue(TP t);

std::string show(const TP& t);
std::string show(const VP& v);
bool eq(const TP& a, const TP& b);
bool eq(const VP& a, const VP& b);
std::string diff(const VP& a, const VP& b, const std::string& path = "");
int nodes(const TP& t);
int depth(const TP& t);
void features(Ctx& c, const TP& t);

// bridges to the real thing
pvd::FieldConstPtr build(const TP& t);
// the same type by a random route: factory, FieldBuilder, decoding, appending fields
pvd::FieldConstPtr buildBy(Ctx& c, const TP& t);
// a type differing in exactly one respect
TP mutateType(Ctx& c, const TP& t, std::string* what = 0);
TP describe(const pvd::FieldConstPtr& f);
void store(const pvd::PVFieldPtr& f, const VP& v);
VP load(const pvd::PVField& f);
inline VP load(const pvd::PVFieldPtr& f) { return load(*f); }
pvd::PVFieldPtr make(const VP& v); // create and store
inline pvd::PVStructurePtr makeStruct(const VP& v) { return std::tr1::static_pointer_cast<pvd::PVStructure>(make(v)); }

// number of field offsets a value of this type occupies inside a structure
size_t span(const TP& t);

// reference encoder of the wire format
struct Enc {
    std::vector<uint8_t> b; bool big;
    explicit Enc(bool big_) : big(big_) {}
    void u8(unsigned v) { b.push_back((uint8_t)v); }
    void num(uint64_t v, size_t w) { for(size_t i = 0; i < w; i++) b.push_back((uint8_t)(v >> (8 * (big ? w - 1 - i : i)))); }
    void size(int64_t n);
    void str(const std::string& s);
    void type(const TP& t);       // null pointer: absent
    void value(const VP& v);
    void partial(const VP& v, const std::vector<bool>& bits, size_t off = 0); // struct value, bits indexed by field number
    void bitset(const std::vector<bool>& bits);
};
bool anyBit(const std::vector<bool>& bits, size_t from, size_t n);

// ---- transports
enum { BIG = 4321, LITTLE = 1234 };
inline int order(bool big) { return big ? EPICS_ENDIAN_BIG : EPICS_ENDIAN_LITTLE; }

struct Out : public pvd::SerializableControl {
    pvd::ByteBuffer buf; std::vector<uint8_t> out; size_t flushes = 0, directs = 0; bool direct; Ctx* c;
    Out(size_t cap, bool big, bool direct_ = false, Ctx* c_ = 0) : buf(cap, order(big)), direct(direct_), c(c_) {}
    void flushSerializeBuffer() override;
    void ensureBuffer(size_t n) override;
    bool directSerialize(pvd::ByteBuffer*, const char* p, size_t n, size_t sz) override;
    void cachedSerialize(std::tr1::shared_ptr<const pvd::Field> const& f, pvd::ByteBuffer* b) override;
    std::vector<uint8_t> finish() { flushSerializeBuffer(); return out; }
};
struct Eof : public std::runtime_error { Eof() : std::runtime_error("end of stream") {} };
struct In : public pvd::DeserializableControl {
    pvd::ByteBuffer buf; std::vector<uint8_t> in; size_t at = 0; size_t refills = 0, directs = 0; bool direct; Ctx* c; size_t cap;
    bool hostile = false; // bytes may be anything: impossible demands are a transport error, not a failure
    // c (may be 0) decides how much arrives at each refill
    In(const std::vector<uint8_t>& bytes, size_t cap, bool big, bool direct_ = false, Ctx* c_ = 0);
    void ensureData(size_t n) override;
    bool directDeserialize(pvd::ByteBuffer*, char* p, size_t n, size_t sz) override;
    std::tr1::shared_ptr<const pvd::Field> cachedDeserialize(pvd::ByteBuffer* b) override;
    size_t left() const { return in.size() - at + buf.getRemaining(); }
    size_t consumed() const { return in.size() - left(); }
};

// random buffer capacity
size_t genCap(Ctx& c);

} // namespace gp
#endif
