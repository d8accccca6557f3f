// Runs the real CommsDSL parser on jobs and prints, per job, one JSON line with the outcome of each
// public API call, every report, and a projection of the whole parsed model.
//
// Job (one line of stdin): id TAB flags TAB op TAB op ...
//   flags: 'm' multiple schemas enabled, '-' none
//   op:    P<path> parse file; V validate; E<prefix> register expected extra prefix
// Wide integers are printed as "#<decimal>", doubles as "~<16 hex digits>".
#include <cinttypes>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <cmath>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include "commsdsl/parse/ParseProtocol.h"
#include "commsdsl/parse/ParseIntField.h"
#include "commsdsl/parse/ParseEnumField.h"
#include "commsdsl/parse/ParseSetField.h"
#include "commsdsl/parse/ParseFloatField.h"
#include "commsdsl/parse/ParseBitfieldField.h"
#include "commsdsl/parse/ParseBundleField.h"
#include "commsdsl/parse/ParseStringField.h"
#include "commsdsl/parse/ParseDataField.h"
#include "commsdsl/parse/ParseListField.h"
#include "commsdsl/parse/ParseRefField.h"
#include "commsdsl/parse/ParseOptionalField.h"
#include "commsdsl/parse/ParseVariantField.h"
#include "commsdsl/parse/ParseMessage.h"
#include "commsdsl/parse/ParseInterface.h"
#include "commsdsl/parse/ParseFrame.h"
#include "commsdsl/parse/ParseLayer.h"
#include "commsdsl/parse/ParseOptCond.h"

using namespace commsdsl::parse;

static std::string out;

static void str(const std::string& s)
{
    out += '"';
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { out += '\\'; out += static_cast<char>(c); }
        else if (c < 0x20) { char b[8]; std::snprintf(b, sizeof(b), "\\u%04x", c); out += b; }
        else out += static_cast<char>(c);
    }
    out += '"';
}

struct Obj
{
    bool first = true;
    Obj() { out += '{'; }
    ~Obj() { out += '}'; }
    void key(const char* k) { if (!first) out += ','; first = false; str(k); out += ':'; }
    void s(const char* k, const std::string& v) { key(k); str(v); }
    void n(const char* k, long v) { key(k); out += std::to_string(v); }
    void b(const char* k, bool v) { key(k); out += v ? "true" : "false"; }
    void w(const char* k, std::intmax_t v) { key(k); out += "\"#" + std::to_string(v) + "\""; }
    void u(const char* k, std::uintmax_t v) { key(k); out += "\"#" + std::to_string(v) + "\""; }
    void d(const char* k, double v)
    {
        if (std::isnan(v)) { v = std::nan(""); } // one NaN
        std::uint64_t bits; std::memcpy(&bits, &v, 8);
        char buf[32]; std::snprintf(buf, sizeof(buf), "\"~%016" PRIx64 "\"", bits);
        key(k); out += buf;
    }
};

template <typename T, typename F> static void arr(const T& l, F&& f)
{
    out += '[';
    bool first = true;
    for (auto&& e : l) { if (!first) out += ','; first = false; f(e); }
    out += ']';
}

static void ver(Obj& o, unsigned since, unsigned dep)
{
    o.n("since", since);
    o.n("dep", dep == ParseProtocol::parseNotYetDeprecated() ? -1L : static_cast<long>(dep));
}

template <typename T> static void extras(Obj& o, const T& e)
{
    auto& a = e.parseExtraAttributes();
    if (!a.empty()) { o.key("xattr"); arr(a, [](auto& p){ Obj x; x.s("k", p.first); x.s("v", p.second); }); }
    auto& el = e.parseExtraElements();
    if (!el.empty()) { o.n("xelem", static_cast<long>(el.size())); }
}

static void cond(const ParseOptCond& c)
{
    Obj o;
    if (!c.parseValid()) { return; }
    if (c.parseKind() == ParseOptCond::ParseKind::Expr) {
        ParseOptCondExpr e(c);
        o.s("t", "expr"); o.s("l", e.parseLeft()); o.s("op", e.parseOp()); o.s("r", e.parseRight());
        auto info = [&o](const char* k, const ParseOptCondExpr::ParseOperandInfo& i) {
            o.key(k); Obj x;
            x.n("type", static_cast<long>(i.m_type)); x.n("mode", static_cast<long>(i.m_mode)); x.s("acc", i.m_access);
        };
        info("li", e.parseLeftInfo()); info("ri", e.parseRightInfo());
        return;
    }
    ParseOptCondList l(c);
    o.s("t", l.parseType() == ParseOptCondList::ParseType::And ? "and" : "or");
    o.key("c"); arr(l.parseConditions(), [](auto& x){ cond(x); });
}

template <typename T> static void aliases(Obj& o, const T& l)
{
    o.key("aliases");
    arr(l, [](auto& a){ Obj x; x.s("name", a.parseName()); x.s("field", a.parseFieldName()); });
}

static void field(const ParseField& f, bool top = false);
static void sub(Obj& o, const char* k, const ParseField& f) { o.key(k); field(f); }

static const char* TypeNames[] = {"int8","uint8","int16","uint16","int32","uint32","int64","uint64","intvar","uintvar","none"};
static const char* KindNames[] = {"int","enum","set","float","bitfield","bundle","string","data","list","ref","optional","variant","none"};


static std::string hex(const std::vector<std::uint8_t>& v)
{
    std::string r; char b[4];
    for (auto x : v) { std::snprintf(b, sizeof(b), "%02x", x); r += b; }
    return r;
}

template <typename T> static std::string ovr(const T& f)
{
    std::string v;
    auto add = [&v](ParseOverrideType t){ v += static_cast<char>('0' + static_cast<int>(t)); };
    add(f.parseReadOverride()); add(f.parseWriteOverride()); add(f.parseRefreshOverride());
    add(f.parseLengthOverride()); add(f.parseValidOverride()); add(f.parseNameOverride());
    return v;
}

static void field(const ParseField& f, bool top)
{
    Obj o;
    if (!f.parseValid()) { o.b("invalid", true); return; }
    auto ext = f.parseExternalRef();
    if ((!top) && (!ext.empty())) { o.s("ext", ext); return; }
    o.s("name", f.parseName());
    if (top) o.s("xref", ext);
    o.s("kind", KindNames[static_cast<unsigned>(f.parseKind())]);
    o.s("disp", f.parseDisplayName());
    o.s("desc", f.parseDescription());
    o.n("sem", static_cast<long>(f.parseSemanticType()));
    o.u("minl", f.parseMinLength());
    o.u("maxl", f.parseMaxLength());
    o.u("bits", f.parseBitLength());
    ver(o, f.parseSinceVersion(), f.parseDeprecatedSince());
    o.b("rem", f.parseIsDeprecatedRemoved());
    o.b("pseudo", f.parseIsPseudo());
    o.b("fixedv", f.parseIsFixedValue());
    o.b("custom", f.parseIsCustomizable());
    o.b("foi", f.parseIsFailOnInvalid());
    o.b("fgen", f.parseIsForceGen());
    o.s("ovr", std::string(1, static_cast<char>('0' + static_cast<int>(f.parseValueOverride()))) + ovr(f));
    o.s("ccf", f.parseCopyCodeFrom());
    extras(o, f);
    switch (f.parseKind()) {
    case ParseField::ParseKind::Int: {
        ParseIntField x(f);
        o.s("type", TypeNames[static_cast<unsigned>(x.parseType())]);
        o.n("endian", x.parseEndian());
        o.w("serOff", x.parseSerOffset());
        o.w("min", x.parseMinValue()); o.w("max", x.parseMaxValue()); o.w("def", x.parseDefaultValue());
        o.w("scn", x.parseScaling().first); o.w("scd", x.parseScaling().second);
        o.key("ranges"); arr(x.parseValidRanges(), [](auto& r){ Obj y; y.w("min", r.m_min); y.w("max", r.m_max); ver(y, r.m_sinceVersion, r.m_deprecatedSince); });
        o.key("specials"); arr(x.parseSpecialValues(), [](auto& r){ Obj y; y.s("name", r.first); y.w("val", r.second.m_value); ver(y, r.second.m_sinceVersion, r.second.m_deprecatedSince); y.s("desc", r.second.m_description); y.s("disp", r.second.m_displayName); });
        o.n("units", static_cast<long>(x.parseUnits()));
        o.b("vcv", x.parseValidCheckVersion());
        o.n("dd", x.parseDisplayDecimals());
        o.w("doff", x.parseDisplayOffset());
        o.b("sext", x.parseSignExt());
        o.b("all", x.parseAvailableLengthLimit());
        break; }
    case ParseField::ParseKind::Enum: {
        ParseEnumField x(f);
        o.s("type", TypeNames[static_cast<unsigned>(x.parseType())]);
        o.n("endian", x.parseEndian());
        o.w("def", x.parseDefaultValue());
        o.key("vals"); arr(x.parseValues(), [](auto& r){ Obj y; y.s("name", r.first); y.w("val", r.second.m_value); ver(y, r.second.m_sinceVersion, r.second.m_deprecatedSince); y.s("desc", r.second.m_description); y.s("disp", r.second.m_displayName); });
        o.key("rev"); arr(x.parseRevValues(), [](auto& r){ Obj y; y.s("name", r.second); y.w("val", r.first); });
        o.b("nua", x.parseIsNonUniqueAllowed()); o.b("uniq", x.parseIsUnique());
        o.b("vcv", x.parseValidCheckVersion()); o.b("hex", x.parseHexAssign()); o.b("all", x.parseAvailableLengthLimit());
        break; }
    case ParseField::ParseKind::Set: {
        ParseSetField x(f);
        o.s("type", TypeNames[static_cast<unsigned>(x.parseType())]);
        o.n("endian", x.parseEndian());
        o.b("defb", x.parseDefaultBitValue()); o.b("resb", x.parseReservedBitValue());
        o.key("bitsl"); arr(x.parseBits(), [](auto& r){ Obj y; y.s("name", r.first); y.n("idx", r.second.m_idx); ver(y, r.second.m_sinceVersion, r.second.m_deprecatedSince); y.b("def", r.second.m_defaultValue); y.b("res", r.second.m_reserved); y.b("resv", r.second.m_reservedValue); y.s("desc", r.second.m_description); y.s("disp", r.second.m_displayName); });
        o.b("nua", x.parseIsNonUniqueAllowed()); o.b("uniq", x.parseIsUnique());
        o.b("vcv", x.parseValidCheckVersion()); o.b("all", x.parseAvailableLengthLimit());
        break; }
    case ParseField::ParseKind::Float: {
        ParseFloatField x(f);
        o.s("type", x.parseType() == ParseFloatField::ParseType::Float ? "float" : x.parseType() == ParseFloatField::ParseType::Double ? "double" : "none");
        o.n("endian", x.parseEndian());
        o.d("def", x.parseDefaultValue());
        o.key("ranges"); arr(x.parseValidRanges(), [](auto& r){ Obj y; y.d("min", r.m_min); y.d("max", r.m_max); ver(y, r.m_sinceVersion, r.m_deprecatedSince); });
        o.key("specials"); arr(x.parseSpecialValues(), [](auto& r){ Obj y; y.s("name", r.first); y.d("val", r.second.m_value); ver(y, r.second.m_sinceVersion, r.second.m_deprecatedSince); y.s("desc", r.second.m_description); y.s("disp", r.second.m_displayName); });
        o.n("units", static_cast<long>(x.parseUnits()));
        o.b("vcv", x.parseValidCheckVersion());
        o.n("dd", x.parseDisplayDecimals());
        o.b("nus", x.parseHasNonUniqueSpecials());
        break; }
    case ParseField::ParseKind::Bitfield: {
        ParseBitfieldField x(f);
        o.n("endian", x.parseEndian());
        o.key("members"); arr(x.parseMembers(), [](auto& m){ field(m); });
        o.key("valid"); cond(x.parseValidCond());
        break; }
    case ParseField::ParseKind::Bundle: {
        ParseBundleField x(f);
        o.key("members"); arr(x.parseMembers(), [](auto& m){ field(m); });
        aliases(o, x.parseAliases());
        o.key("valid"); cond(x.parseValidCond());
        break; }
    case ParseField::ParseKind::String: {
        ParseStringField x(f);
        o.s("def", x.parseDefaultValue()); o.s("enc", x.parseEncodingStr());
        o.u("flen", x.parseFixedLength()); o.b("zterm", x.parseHasZeroTermSuffix());
        o.s("detp", x.parseDetachedPrefixFieldName());
        if (x.parseHasLengthPrefixField()) { sub(o, "lenp", x.parseLengthPrefixField()); }
        o.key("vv"); arr(x.parseValidValues(), [](auto& r){ Obj y; y.s("v", r.m_value); ver(y, r.m_sinceVersion, r.m_deprecatedSince); });
        break; }
    case ParseField::ParseKind::Data: {
        ParseDataField x(f);
        o.s("def", hex(x.parseDefaultValue()));
        o.u("flen", x.parseFixedLength());
        o.s("detp", x.parseDetachedPrefixFieldName());
        if (x.parseHasLengthPrefixField()) { sub(o, "lenp", x.parseLengthPrefixField()); }
        o.key("vv"); arr(x.parseValidValues(), [](auto& r){ Obj y; y.s("v", hex(r.m_value)); ver(y, r.m_sinceVersion, r.m_deprecatedSince); });
        break; }
    case ParseField::ParseKind::List: {
        ParseListField x(f);
        sub(o, "elem", x.parseElementField());
        o.u("fcount", x.parseFixedCount());
        o.s("dcp", x.parseDetachedCountPrefixFieldName()); o.s("dlp", x.parseDetachedLengthPrefixFieldName());
        o.s("delp", x.parseDetachedElemLengthPrefixFieldName()); o.s("dts", x.parseDetachedTermSuffixFieldName());
        if (x.parseHasCountPrefixField()) { sub(o, "cp", x.parseCountPrefixField()); }
        if (x.parseHasLengthPrefixField()) { sub(o, "lp", x.parseLengthPrefixField()); }
        if (x.parseHasElemLengthPrefixField()) { sub(o, "elp", x.parseElemLengthPrefixField()); }
        if (x.parseHasTermSuffixField()) { sub(o, "ts", x.parseTermSuffixField()); }
        o.b("efl", x.parseElemFixedLength());
        break; }
    case ParseField::ParseKind::Ref: {
        ParseRefField x(f);
        sub(o, "ref", x.parseField());
        break; }
    case ParseField::ParseKind::Optional: {
        ParseOptionalField x(f);
        o.n("mode", static_cast<long>(x.parseDefaultMode()));
        sub(o, "field", x.parseField());
        o.key("cond"); cond(x.parseCond());
        o.b("morf", x.parseMissingOnReadFail()); o.b("moi", x.parseMissingOnInvalid());
        break; }
    case ParseField::ParseKind::Variant: {
        ParseVariantField x(f);
        o.key("members"); arr(x.parseMembers(), [](auto& m){ field(m); });
        o.w("defi", static_cast<std::intmax_t>(x.parseDefaultMemberIdx()));
        break; }
    default: break;
    }
}

static void message(const ParseMessage& m)
{
    Obj o;
    o.s("name", m.parseName()); o.s("xref", m.parseExternalRef());
    o.s("disp", m.parseDisplayName()); o.s("desc", m.parseDescription());
    o.u("id", m.parseId()); o.n("order", m.parseOrder());
    o.u("minl", m.parseMinLength()); o.u("maxl", m.parseMaxLength());
    ver(o, m.parseSinceVersion(), m.parseDeprecatedSince()); o.b("rem", m.parseIsDeprecatedRemoved());
    o.b("custom", m.parseIsCustomizable()); o.b("foi", m.parseIsFailOnInvalid());
    o.n("sender", static_cast<long>(m.parseSender()));
    o.s("ovr", ovr(m)); o.s("ccf", m.parseCopyCodeFrom());
    o.key("platforms"); arr(m.parsePlatforms(), [](auto& p){ str(p); });
    o.key("fields"); arr(m.parseFields(), [](auto& f){ field(f); });
    aliases(o, m.parseAliases());
    o.key("construct"); cond(m.parseConstruct());
    o.key("readc"); cond(m.parseReadCond());
    o.key("validc"); cond(m.parseValidCond());
    extras(o, m);
}

static void iface(const ParseInterface& m)
{
    Obj o;
    o.s("name", m.parseName()); o.s("xref", m.parseExternalRef()); o.s("desc", m.parseDescription());
    o.s("ccf", m.parseCopyCodeFrom());
    o.key("fields"); arr(m.parseFields(), [](auto& f){ field(f); });
    aliases(o, m.parseAliases());
    extras(o, m);
}

static const char* LayerNames[] = {"custom","sync","size","id","value","payload","checksum","none"};

static void layer(const ParseLayer& l)
{
    Obj o;
    o.s("name", l.parseName()); o.s("disp", l.parseDisplayName()); o.s("desc", l.parseDescription());
    o.s("kind", LayerNames[static_cast<unsigned>(l.parseKind())]);
    if (l.parseHasField()) { sub(o, "field", l.parseField()); }
    extras(o, l);
    switch (l.parseKind()) {
    case ParseLayer::ParseKind::Custom: {
        ParseCustomLayer x(l);
        o.s("sem", LayerNames[static_cast<unsigned>(x.parseSemanticLayerType())]);
        o.s("from", x.parseChecksumFromLayer()); o.s("until", x.parseChecksumUntilLayer());
        break; }
    case ParseLayer::ParseKind::Sync: {
        ParseSyncLayer x(l);
        o.b("seek", x.parseSeekField()); o.b("esc", x.parseHasEscField());
        if (x.parseHasEscField()) { sub(o, "escf", x.parseEscField()); }
        o.b("after", x.parseIsAfterPayload());
        o.b("vbr", x.parseVerifyBeforeRead());
        o.s("from", x.parseFromLayer());
        break; }
    case ParseLayer::ParseKind::Value: {
        ParseValueLayer x(l);
        o.key("ifaces"); arr(x.parseInterfaces(), [](auto& i){ str(i.parseExternalRef()); });
        o.s("fname", x.parseFieldName()); o.w("fidx", static_cast<std::intmax_t>(x.parseFieldIdx())); o.b("pseudo", x.parsePseudo());
        break; }
    case ParseLayer::ParseKind::Checksum: {
        ParseChecksumLayer x(l);
        o.n("alg", static_cast<long>(x.parseAlg())); o.s("algn", x.parseCustomAlgName());
        o.s("from", x.parseFromLayer()); o.s("until", x.parseUntilLayer()); o.b("vbr", x.parseVerifyBeforeRead());
        break; }
    default: break;
    }
}

static void frame(const ParseFrame& f)
{
    Obj o;
    o.s("name", f.parseName()); o.s("xref", f.parseExternalRef()); o.s("disp", f.parseDisplayName()); o.s("desc", f.parseDescription());
    o.key("layers"); arr(f.parseLayers(), [](auto& l){ layer(l); });
    extras(o, f);
}

static void ns(const ParseNamespace& n)
{
    Obj o;
    o.s("name", n.parseName()); o.s("xref", n.parseExternalRef()); o.s("disp", n.parseDisplayName()); o.s("desc", n.parseDescription());
    o.key("nss"); arr(n.parseNamespaces(), [](auto& x){ ns(x); });
    o.key("fields"); arr(n.parseFields(), [](auto& x){ field(x, true); });
    o.key("msgs"); arr(n.parseMessages(), [](auto& x){ message(x); });
    o.key("ifaces"); arr(n.parseInterfaces(), [](auto& x){ iface(x); });
    o.key("frames"); arr(n.parseFrames(), [](auto& x){ frame(x); });
    extras(o, n);
}

static void schema(const ParseSchema& s)
{
    Obj o;
    o.s("name", s.parseName()); o.s("disp", s.parseDisplayName()); o.s("desc", s.parseDescription());
    o.n("id", s.parseId()); o.n("version", s.parseVersion()); o.n("dsl", s.parseDslVersion());
    o.n("endian", s.parseEndian()); o.b("numa", s.parseNonUniqueMsgIdAllowed());
    o.key("platforms"); arr(s.parsePlatforms(), [](auto& p){ str(p); });
    o.key("all"); arr(s.parseAllMessages(), [](auto& m){ str(m.parseExternalRef()); });
    o.key("nss"); arr(s.parseNamespaces(), [](auto& x){ ns(x); });
    extras(o, s);
}

static void run(const std::vector<std::string>& job)
{
    struct Rep { int level; std::string msg; };
    std::vector<Rep> reps;
    ParseProtocol prot;
    prot.parseSetErrorReportCallback([&reps](ParseErrorLevel l, const std::string& m){ reps.push_back({static_cast<int>(l), m}); });
    if (job[1].find('m') != std::string::npos) { prot.parseSetMultipleSchemasEnabled(true); }
    Obj o;
    o.s("id", job[0]);
    std::vector<bool> res; std::vector<std::size_t> marks;
    for (auto i = 2U; i < job.size(); ++i) {
        auto& op = job[i];
        if (op[0] == 'P') { res.push_back(prot.parse(op.substr(1))); }
        else if (op[0] == 'V') { res.push_back(prot.parseValidate()); }
        else { prot.parseAddExpectedExtraPrefix(op.substr(1)); res.push_back(true); }
        marks.push_back(reps.size());
    }
    o.key("res"); arr(res, [](bool b){ out += b ? "true" : "false"; });
    o.key("marks"); arr(marks, [](std::size_t b){ out += std::to_string(b); });
    o.key("log"); arr(reps, [](auto& r){ Obj x; x.n("l", r.level); x.s("m", r.msg); });
    o.key("schemas"); arr(prot.parseSchemas(), [](auto& s){ schema(s); });
}

int main(int argc, char** argv)
{
    bool nofork = (argc > 1) && (std::string(argv[1]) == "--nofork");
    std::string line;
    while (std::getline(std::cin, line)) {
        std::vector<std::string> job;
        std::stringstream ss(line);
        std::string tok;
        while (std::getline(ss, tok, '\t')) { job.push_back(tok); }
        if (job.size() < 2) { continue; }
        if (nofork) { out.clear(); run(job); std::cout << out << std::endl; continue; }
        std::cout.flush();
        auto pid = ::fork();
        if (pid == 0) {
            struct rlimit core{0, 0}; ::setrlimit(RLIMIT_CORE, &core);
            ::alarm(20);
            if (::freopen("/dev/null", "w", stderr) == nullptr) { ::_exit(99); }
            out.clear();
            run(job);
            out += '\n';
            const char* p = out.data(); std::size_t left = out.size();
            while (left > 0) { auto n = ::write(1, p, left); if (n <= 0) { ::_exit(98); } p += n; left -= static_cast<std::size_t>(n); }
            ::_exit(0);
        }
        int st = 0;
        ::waitpid(pid, &st, 0);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            int sig = WIFSIGNALED(st) ? WTERMSIG(st) : -WEXITSTATUS(st);
            std::cout << "{\"id\":\"" << job[0] << "\",\"crash\":" << sig << "}" << std::endl;
        }
    }
    return 0;
}
