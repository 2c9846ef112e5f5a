// C08: framing on byte streams. Both formats of the stream channel run on a stream whose every read and write completes as the exploration decides.
#include "sim.h"
#include "cborref.h"
#include <dots/io/channels/AsyncStreamChannel.h>
#include <dots/type/Registry.h>
#include <VAll.dots.h>
#include <VRec.dots.h>
#include <VPair.dots.h>
#include <VInternalT.dots.h>
#include <DotsMsgError.dots.h>

using namespace dx;
using namespace dots;
using vh::Chooser;
using cref::bytes;

namespace
{
    using ec_t = boost::system::error_code;

    struct Wire
    {
        using done_t = std::function<void(ec_t, size_t)>;
        done_t onRead, onWrite;
        uint8_t* rbuf = nullptr;
        size_t rcap = 0, wlen = 0;
        const uint8_t* wbuf = nullptr;
        bytes out;
        std::vector<done_t> orphans; // operations that were under way when the stream was destroyed
        bool gone = false;
        size_t maxRead = 0;

        static void inLoop(std::function<void()> f)
        {
            asio::post(sim::ioc(), std::move(f));
            sim::ioc().restart();
            sim::ioc().poll();
        }
        bool reading() const { return static_cast<bool>(onRead); }
        bool writing() const { return static_cast<bool>(onWrite); }
        size_t feed(const uint8_t* p, size_t n)
        {
            n = std::min(n, rcap);
            std::memcpy(rbuf, p, n);
            done_t d = std::move(onRead);
            onRead = nullptr;
            inLoop([d = std::move(d), n] { d({}, n); });
            return n;
        }
        void failRead(ec_t ec)
        {
            done_t d = std::move(onRead);
            onRead = nullptr;
            inLoop([d = std::move(d), ec] { d(ec, 0); });
        }
        void write(size_t n)
        {
            n = std::min(n, wlen);
            out.insert(out.end(), wbuf, wbuf + n);
            done_t d = std::move(onWrite);
            onWrite = nullptr;
            inLoop([d = std::move(d), n] { d({}, n); });
        }
        void failWrite()
        {
            done_t d = std::move(onWrite);
            onWrite = nullptr;
            inLoop([d = std::move(d)] { d(asio::error::broken_pipe, 0); });
        }
        void abortOrphans()
        {
            auto o = std::move(orphans);
            orphans.clear();
            for (auto& d : o) inLoop([d] { d(asio::error::operation_aborted, 0); });
        }
    };
    using wire_t = std::shared_ptr<Wire>;

    class FakeStream
    {
    public:
        using executor_type = asio::io_context::executor_type;
        explicit FakeStream(wire_t w) : m_wire(std::move(w)) {}
        FakeStream(FakeStream&&) = default;
        ~FakeStream()
        {
            if (m_wire == nullptr) return;
            m_wire->gone = true;
            if (m_wire->onRead) { m_wire->orphans.push_back(std::move(m_wire->onRead)); m_wire->onRead = nullptr; }
            if (m_wire->onWrite) { m_wire->orphans.push_back(std::move(m_wire->onWrite)); m_wire->onWrite = nullptr; }
        }
        executor_type get_executor() { return sim::ioc().get_executor(); }
        template <typename Buffers, typename Handler>
        void async_read_some(const Buffers& b, Handler&& h)
        {
            if (m_wire->onRead) throw std::logic_error{ "two reads at once" };
            asio::mutable_buffer first = *asio::buffer_sequence_begin(b);
            m_wire->rbuf = static_cast<uint8_t*>(first.data());
            m_wire->rcap = first.size();
            auto p = std::make_shared<std::decay_t<Handler>>(std::forward<Handler>(h));
            m_wire->onRead = [p](ec_t ec, size_t n) { (*p)(ec, n); };
        }
        template <typename Buffers, typename Handler>
        void async_write_some(const Buffers& b, Handler&& h)
        {
            if (m_wire->onWrite) throw std::logic_error{ "two writes at once" };
            asio::const_buffer first = *asio::buffer_sequence_begin(b);
            m_wire->wbuf = static_cast<const uint8_t*>(first.data());
            m_wire->wlen = first.size();
            auto p = std::make_shared<std::decay_t<Handler>>(std::forward<Handler>(h));
            m_wire->onWrite = [p](ec_t ec, size_t n) { (*p)(ec, n); };
        }
    private:
        wire_t m_wire;
    };

    using V1 = io::AsyncStreamChannel<FakeStream, serialization::CborSerializer, io::TransmissionFormat::v1>;
    using V2 = io::AsyncStreamChannel<FakeStream, serialization::CborSerializer, io::TransmissionFormat::v2>;
    using cache_t = V2::payload_cache_t;

    Registry& registry() { static Registry r{ std::nullopt, Registry::StaticTypePolicy::All }; return r; }

    io::channel_ptr_t makeChannel(bool v1, wire_t w, cache_t* cache, Registry& reg)
    {
        io::channel_ptr_t c;
        if (v1) c = io::make_channel<V1>(FakeStream{ w }, std::shared_ptr<cache_t>{ cache, [](auto*) {} });
        else c = io::make_channel<V2>(FakeStream{ w }, std::shared_ptr<cache_t>{ cache, [](auto*) {} });
        c->init(reg);
        return c;
    }

    struct Msg
    {
        std::string name;
        DotsHeader header;
        AnyStruct instance;
        Msg(std::string n, DotsHeader h, AnyStruct i) : name(std::move(n)), header(std::move(h)), instance(std::move(i)) {}
        Msg(const Msg& o) : name(o.name), header(o.header), instance(o.instance) {}
        MV head() const { return readStruct(header); }
        MV body() const { return mOnly(readStruct(*instance), header.attributes->toValue()); }
    };
    Msg msg(const std::string& name, const Struct& s, uint32_t attributes, bool full)
    {
        DotsHeader h{ .typeName = s._descriptor().name(), .attributes = property_set_t{ attributes } };
        if (full)
        {
            h.sentTime = timepoint_t{ timepoint_t::base_t{ std::chrono::duration<double>(1234567.5) } };
            h.serverSentTime = timepoint_t{ timepoint_t::base_t{ std::chrono::duration<double>(1234568.25) } };
            h.sender = uint32_t(70000);
            h.fromCache = uint32_t(3);
            h.removeObj = true;
            h.isFromMyself = false;
        }
        return Msg{ name, h, AnyStruct{ s } };
    }
    Msg tiny(int id) { return msg("tiny", VInternalT{ .id = id }, 2, false); }
    Msg sized(int id, size_t n) { std::string s(n, 'q'); for (size_t i = 0; i < n; ++i) s[i] = static_cast<char>(' ' + (i * 7 + id) % 90); return msg("sized " + std::to_string(n), VInternalT{ .id = id, .value = s }, 6, false); }
    Msg fullHead(int id) { return msg("full header", VInternalT{ .id = id, .value = std::string("vv") }, 6, true); }
    Msg error() { return msg("error", DotsMsgError{ .errorCode = 0 }, 2, false); }
    Msg bare(int id) { return msg("no attributes", VInternalT{ .id = id, .value = std::string("x") }, 0, false); }
    Msg all()
    {
        VAll v{ .b = true, .i8 = int8_t(-5), .i16 = int16_t(-300), .i64 = int64_t(-70000000000), .u64 = UINT64_MAX, .f32 = 0.5f, .f64 = 0.1, .str = std::string("k"), .en = VEnum::blue };
        v.leaf.emplace();
        v.leaf->text = std::string("deep");
        return msg("all", v, v._validProperties().toValue(), true);
    }
    Msg pair(int id) { return msg("pair", VPair{ .id = id, .value = std::string("w"), .extra = 1.5 }, 0xe, false); }

    // --- the reference of the wire ---
    const StructDescriptor& transportHeader() { return *registry().findStructType("DotsTransportHeader"); }
    MV v1Head(const Msg& m, size_t payload)
    {
        MV h = m.head();
        if (h.p.count(2) == 0) h.p[2] = MV::F(Type::timepoint, -1);
        if (h.p.count(5) == 0) h.p[5] = MV::UInt(Type::uint32, 1);
        MV t = MV::St({ { 2, MV::S(*m.header.typeName) }, { 3, h }, { 4, MV::UInt(Type::uint32, payload) } });
        if (m.instance->_descriptor().internal()) t.p[1] = MV::S("SYS");
        return t;
    }
    bytes payloadOf(const Msg& m) { bytes b; cref::encode(b, m.body(), m.instance->_descriptor()); return b; }
    bytes frame(bool v1, const Msg& m, double now = 5000)
    {
        bytes f, body = payloadOf(m);
        if (v1)
        {
            MV t = v1Head(m, body.size());
            if (t.p[3].p[2].d == -1) t.p[3].p[2].d = now;
            bytes h;
            cref::encode(h, t, transportHeader());
            f.push_back(static_cast<uint8_t>(h.size()));
            f.push_back(static_cast<uint8_t>(h.size() >> 8));
            f.insert(f.end(), h.begin(), h.end());
        }
        else
        {
            bytes h;
            cref::encode(h, m.head(), DotsHeader::_Descriptor());
            cref::head(f, 0, h.size() + body.size(), 4);
            f.insert(f.end(), h.begin(), h.end());
        }
        f.insert(f.end(), body.begin(), body.end());
        return f;
    }
    // how the header reaches the receiver
    MV arrivedHead(bool v1, const Msg& m, double now = 5000)
    {
        MV h = m.head();
        if (v1 && h.p.count(2) == 0) h.p[2] = MV::F(Type::timepoint, now);
        if (v1 && h.p.count(5) == 0) h.p[5] = MV::UInt(Type::uint32, 1);
        return h;
    }

    struct Frame { std::string type; MV head, body; bytes raw; size_t end; };
    // splits what was written; yields the complete frames, throws on anything malformed; times of sending that were filled in become 5000
    std::vector<Frame> split(bool v1, const bytes& b, Registry& reg)
    {
        std::vector<Frame> r;
        size_t pos = 0;
        while (pos < b.size())
        {
            Frame f;
            size_t begin = pos;
            if (v1)
            {
                if (b.size() - pos < 2) break;
                size_t hs = b[pos] | b[pos + 1] << 8;
                if (b.size() - pos - 2 < hs) break;
                pos += 2;
                size_t e = pos + hs;
                cref::Item it = cref::decode(b, pos);
                if (pos != e) throw cref::Bad{ "header size" };
                MV t = cref::structure(it, transportHeader());
                if (!t.p.count(3) || !t.p.count(4)) throw cref::Bad{ "incomplete header" };
                f.head = t;
                f.type = t.p[3].p[1].s;
                size_t n = t.p[4].u;
                if (b.size() - pos < n) break;
                size_t e2 = pos + n;
                const StructDescriptor* d = reg.findStructType(f.type);
                if (d == nullptr) throw cref::Bad{ "unknown type" };
                f.body = cref::structure(cref::decode(b, pos), *d);
                if (pos != e2) throw cref::Bad{ "payload size" };
            }
            else
            {
                if (b.size() - pos < 5) break;
                if (b[pos] != 0x1a) throw cref::Bad{ "size prefix" };
                size_t n = 0;
                for (int i = 1; i < 5; ++i) n = n << 8 | b[pos + i];
                if (b.size() - pos - 5 < n) break;
                pos += 5;
                size_t e = pos + n;
                f.head = cref::structure(cref::decode(b, pos), DotsHeader::_Descriptor());
                f.type = f.head.p[1].s;
                const StructDescriptor* d = reg.findStructType(f.type);
                if (d == nullptr) throw cref::Bad{ "unknown type" };
                f.body = cref::structure(cref::decode(b, pos), *d);
                if (pos != e) throw cref::Bad{ "frame size" };
            }
            f.raw.assign(b.begin() + begin, b.begin() + pos);
            f.end = pos;
            r.push_back(std::move(f));
        }
        return r;
    }
    std::string wantFrame(bool v1, const Msg& m)
    {
        bytes body = payloadOf(m);
        return str(v1 ? v1Head(m, body.size()) : m.head()) + " " + str(m.body());
    }
    std::string showFrame(bool v1, const Frame& f, bool timeGiven)
    {
        MV h = f.head;
        if (v1 && !timeGiven && h.p[3].p.count(2)) h.p[3].p[2].d = -1;
        return str(h) + " " + str(f.body);
    }

    // --- a receiving end ---
    enum Reaction { goOn, stop, destroy, throws, reply, nReactions };
    const char* reactionName[] = { "goes on", "stops", "destroys the channel", "throws", "replies" };
    struct Rx
    {
        bool v1;
        wire_t wire = std::make_shared<Wire>();
        io::channel_ptr_t channel;
        std::vector<std::pair<MV, MV>> got;
        std::vector<std::string> types;
        int errors = 0, at = -1;
        Reaction reaction = goOn;
        bool destroyOnError = true;

        explicit Rx(bool v1_, Registry& reg = registry()) : v1(v1_)
        {
            channel = makeChannel(v1, wire, nullptr, reg);
        }
        void start()
        {
            channel->asyncReceive([this](io::Transmission t) {
                Rx* self = this;
                int i = static_cast<int>(self->got.size());
                self->types.push_back(*t.header().typeName);
                self->got.emplace_back(readStruct(t.header()), readStruct(*t.instance()));
                if (i != self->at) return true;
                switch (self->reaction)
                {
                    case stop: return false;
                    case destroy: self->channel.reset(); return false;
                    case throws: throw std::runtime_error{ "handler" };
                    case reply: self->channel->transmit(VInternalT{ .id = 77 }); return true;
                    default: return true;
                }
            }, [this](std::exception_ptr) {
                Rx* self = this;
                ++self->errors;
                if (self->destroyOnError) self->channel.reset();
            });
        }
        ~Rx() { channel.reset(); wire->abortOrphans(); }
    };
    bytes stream(bool v1, const std::vector<Msg>& ms, std::vector<size_t>* ends = nullptr)
    {
        bytes b;
        for (auto& m : ms) { bytes f = frame(v1, m); b.insert(b.end(), f.begin(), f.end()); if (ends) ends->push_back(b.size()); }
        return b;
    }
    std::string expectGot(const Rx& rx, const std::vector<Msg>& ms, size_t n)
    {
        if (rx.got.size() != n) return std::to_string(rx.got.size()) + " of " + std::to_string(n) + " messages were delivered";
        for (size_t i = 0; i < n; ++i)
        {
            if (!eq(rx.got[i].first, arrivedHead(rx.v1, ms[i]))) return "header " + std::to_string(i) + " arrived as " + str(rx.got[i].first) + ", sent " + str(arrivedHead(rx.v1, ms[i]));
            if (!eq(rx.got[i].second, ms[i].body())) return "message " + std::to_string(i) + " (" + ms[i].name + ") arrived as " + str(rx.got[i].second) + ", sent " + str(ms[i].body());
        }
        return "";
    }
    std::string showMsgs(const std::vector<Msg>& ms) { std::string s; for (auto& m : ms) s += (s.empty() ? "" : ", ") + m.name; return s; }
    std::string fmt(bool v1) { return v1 ? "v1" : "v2"; }

    const std::vector<std::vector<Msg>>& lists()
    {
        static const std::vector<std::vector<Msg>> l{
            { tiny(1), error(), tiny(2) },
            { fullHead(1), tiny(-1), sized(3, 20) },
            { all(), bare(4) },
            { tiny(1), tiny(2), tiny(3), tiny(4), sized(5, 1) } };
        return l;
    }

    // feeds [from, to) of b, in portions the receiver's buffer can take
    void feedAll(Rx& rx, const bytes& b, size_t from, size_t to)
    {
        while (from < to && rx.wire->reading()) from += rx.wire->feed(b.data() + from, to - from);
    }
}

// every way of cutting a stream into portions by up to two (thorough: three) cuts
SCENARIO(segmentation)
{
    bool v1 = ch.flag("format");
    auto& ms = ch.of(lists(), "list");
    std::vector<size_t> ends;
    bytes b = stream(v1, ms, &ends);
    size_t n = b.size();
    std::vector<size_t> cuts;
    size_t nCuts = vh::thorough() && n < 130 ? 3 : 2;
    for (size_t k = 0, from = 1; k < nCuts && from < n; ++k)
    {
        size_t c = from + ch.choose(static_cast<int>(n - from) + 1, "cut");
        if (c >= n) break;
        cuts.push_back(c);
        from = c + 1;
    }
    cuts.push_back(n);
    std::string where = fmt(v1) + " [" + showMsgs(ms) + "]";
    if (ch.tracing()) { std::string s; for (size_t c : cuts) s += std::to_string(c) + " "; ch.note(where + " cut at " + s); }
    Rx rx{ v1 };
    rx.start();
    size_t from = 0;
    for (size_t c : cuts)
    {
        feedAll(rx, b, from, c);
        from = c;
        size_t want = 0;
        while (want < ends.size() && ends[want] <= c) ++want;
        vh::checkF(rx.errors == 0, [&] { return where + ": an error was reported"; });
        std::string e = expectGot(rx, ms, want);
        vh::checkF(e.empty(), [&] { return where + " in portions: " + e; });
        vh::checkF(rx.wire->reading(), [&] { return where + ": the channel stopped reading"; });
        vh::state(vh::mix(vh::mix(vh::hashStr(where), from), cuts[0]));
        vh::transition();
    }
    vh::outcome(vh::mix(vh::hashStr(where), cuts.size()));
}

// portions of one size throughout, and messages around the sizes of the buffers
SCENARIO(portions)
{
    bool v1 = ch.flag("format");
    std::vector<int> sizes;
    for (int s = 2048 - 110; s <= 2048 + 12; s += vh::thorough() ? 1 : 3) sizes.push_back(s);
    for (int s : { 0, 4096, 4097, 65535, 65536, 200000, 1048000, 2500000, (1 << 23) - 40, (1 << 23) + 5, (1 << 24) + 3 }) sizes.push_back(s);
    int s = ch.of(sizes, "size");
    static const std::vector<size_t> portions{ 1, 2, 5, 7, 64, 1000, 2047, 2048, 2049, 1u << 30 };
    size_t p = ch.of(portions, "portion");
    if (s > 5000 && p < (s > 1000000 ? 100000u : 64u)) throw vh::Prune{};
    int before = ch.choose(3, "messages before");
    std::vector<Msg> ms;
    for (int i = 0; i < before; ++i) ms.push_back(i == 0 ? fullHead(1) : sized(2, 1500));
    ms.push_back(sized(7, s));
    ms.push_back(tiny(8));
    ms.push_back(sized(9, ch.flag("another") ? s : 3));
    ms.push_back(tiny(10));
    std::vector<size_t> ends;
    bytes b = stream(v1, ms, &ends);
    Rx rx{ v1 };
    rx.start();
    std::string where = fmt(v1) + " [" + showMsgs(ms) + "] in portions of " + std::to_string(p);
    for (size_t from = 0; from < b.size() && rx.wire->reading();)
    {
        from += rx.wire->feed(b.data() + from, std::min(p, b.size() - from));
        size_t want = 0;
        while (want < ends.size() && ends[want] <= from) ++want;
        vh::checkF(rx.got.size() == want && rx.errors == 0, [&] { return where + ": " + std::to_string(rx.got.size()) + " delivered, " + std::to_string(want) + " arrived"; });
        vh::transition();
    }
    std::string e = expectGot(rx, ms, ms.size());
    vh::checkF(e.empty(), [&] { return where + ": " + e; });
    vh::state(vh::hashStr(where));
    vh::outcome(vh::mix(s, v1));
}

// what the receiver does at a message, wherever the stream was cut
SCENARIO(reactions)
{
    bool v1 = ch.flag("format");
    auto& ms = ch.of(lists(), "list");
    std::vector<size_t> ends;
    bytes b = stream(v1, ms, &ends);
    Rx rx{ v1 };
    rx.reaction = static_cast<Reaction>(1 + ch.choose(nReactions - 1, "reaction"));
    rx.at = ch.choose(static_cast<int>(ms.size()), "at");
    rx.destroyOnError = ch.flag("the error handler destroys the channel");
    if (!rx.destroyOnError && rx.reaction != throws) throw vh::Prune{};
    bool writing = ch.flag("a write is under way");
    size_t cut = 1 + ch.choose(static_cast<int>(b.size()), "cut");
    std::string where = fmt(v1) + " [" + showMsgs(ms) + "], the receiver " + reactionName[rx.reaction] + " at message " + std::to_string(rx.at) + (writing ? " while a write is under way" : "");
    ch.note(where + ", cut at " + std::to_string(cut));
    rx.start();
    if (writing) rx.channel->transmit(VInternalT{ .id = 5 });
    feedAll(rx, b, 0, cut);
    feedAll(rx, b, cut, b.size());
    bool ended = rx.reaction != reply;
    std::string e = expectGot(rx, ms, ended ? rx.at + 1 : ms.size());
    vh::checkF(e.empty(), [&] { return where + ": " + e; });
    vh::checkF(rx.errors == (rx.reaction == throws), [&] { return where + ": " + std::to_string(rx.errors) + " errors were reported"; });
    vh::checkF(rx.wire->reading() == !ended, [&] { return where + (ended ? ": the channel went on reading" : ": the channel stopped reading"); });
    rx.wire->abortOrphans();
    while (rx.wire->writing()) rx.wire->write(3);
    bytes want;
    if (!v1)
    {
        bool replied = rx.reaction == reply;
        if (writing) want = frame(v1, tiny(5));
        if (replied) { bytes f = frame(v1, tiny(77)); want.insert(want.end(), f.begin(), f.end()); }
        vh::checkF(rx.wire->out == want, [&] { return where + ": wrote " + vh::hexv(rx.wire->out) + ", expected " + vh::hexv(want); });
    }
    rx.channel.reset();
    rx.wire->abortOrphans();
    vh::checkF(rx.wire->gone, [&] { return where + ": the stream was not released"; });
    vh::state(vh::mix(vh::hashStr(where), cut));
    vh::outcome(vh::mix(vh::hashStr(reactionName[rx.reaction]), rx.got.size()));
    vh::transition(rx.got.size());
}

// the stream ends, fails, or carries something else, at any byte
SCENARIO(faults)
{
    bool v1 = ch.flag("format");
    auto& ms = ch.of(lists(), "list");
    std::vector<size_t> ends;
    bytes b = stream(v1, ms, &ends);
    size_t at = ch.choose(static_cast<int>(b.size()) + 1, "at");
    int kind = ch.choose(3, "kind");
    size_t portion = ch.flag("byte by byte") ? 1 : b.size();
    Rx rx{ v1 };
    rx.destroyOnError = ch.flag("destroy");
    rx.start();
    std::string where = fmt(v1) + " [" + showMsgs(ms) + "], " + (kind == 0 ? "end" : kind == 1 ? "failure" : "foreign type");
    for (size_t from = 0; from < at && rx.wire->reading();) from += rx.wire->feed(b.data() + from, std::min(portion, at - from));
    size_t want = 0;
    while (want < ends.size() && ends[want] <= at) ++want;
    if (kind < 2) rx.wire->failRead(kind == 0 ? ec_t(asio::error::eof) : ec_t(asio::error::connection_reset));
    else
    {
        if (at != (want == 0 ? 0 : ends[want - 1])) throw vh::Prune{};
        Msg m = tiny(1);
        m.header.typeName = std::string("NoSuchType");
        bytes f = frame(v1, m), rest(b.begin() + at, b.end());
        f.insert(f.end(), rest.begin(), rest.end());
        feedAll(rx, f, 0, f.size());
    }
    std::string e = expectGot(rx, ms, want);
    vh::checkF(e.empty(), [&] { return where + ": " + e; });
    vh::checkF(rx.errors == 1, [&] { return where + ": " + std::to_string(rx.errors) + " errors were reported"; });
    vh::checkF(!rx.wire->reading(), [&] { return where + ": the channel went on reading"; });
    vh::state(vh::mix(vh::mix(vh::hashStr(where), at), portion));
    vh::outcome(vh::mix(want, kind));
}

// any byte replaced: at most one error, nothing delivered after it, nothing before the damage affected
SCENARIO(damage)
{
    bool v1 = ch.flag("format");
    auto& ms = lists()[ch.choose(2, "list")];
    std::vector<size_t> ends;
    bytes b = stream(v1, ms, &ends);
    size_t at = ch.choose(static_cast<int>(b.size()), "at");
    static const std::vector<uint8_t> subst{ 0x00, 0x01, 0x17, 0x18, 0x1a, 0x1b, 0x3b, 0x41, 0x5b, 0x61, 0x7b, 0x80, 0x9b, 0xa0, 0xa1, 0xbb, 0xc0, 0xf6, 0xf9, 0xfb, 0xff };
    uint8_t x = ch.of(subst, "byte");
    size_t first = 0;
    while (ends[first] <= at) ++first;
    b[at] = x;
    size_t portion = ch.flag("byte by byte") ? 1 : b.size();
    Rx rx{ v1 };
    rx.start();
    feedAll(rx, portion == 1 ? bytes{} : b, 0, portion == 1 ? 0 : b.size());
    for (size_t i = 0; portion == 1 && i < b.size() && rx.wire->reading(); ++i) rx.wire->feed(b.data() + i, 1);
    std::string where = fmt(v1) + " [" + showMsgs(ms) + "] with byte " + std::to_string(at) + " replaced";
    vh::checkF(rx.errors <= 1, [&] { return where + ": " + std::to_string(rx.errors) + " errors"; });
    vh::checkF(rx.got.size() >= first, [&] { return where + ": a message before the damage was lost"; });
    auto undamaged = rx.got;
    rx.got.resize(first);
    std::string e = expectGot(rx, ms, first);
    vh::checkF(e.empty(), [&] { return where + ": " + e; });
    vh::checkF(rx.errors == 0 || !rx.wire->reading(), [&] { return where + ": the channel went on reading after the error"; });
    vh::state(vh::mix(vh::mix(vh::hashStr(where), x), portion));
    vh::outcome(vh::mix(rx.errors, undamaged.size()));
}

// a header of the first format that leaves out what it has to say, after any number of complete ones: one error, nothing delivered
SCENARIO(incomplete)
{
    auto& ms = ch.of(lists(), "list");
    size_t n = ch.choose(static_cast<int>(ms.size()) + 1, "complete messages before");
    int what = ch.choose(4, "left out");        // the size, the header, the name of the type, everything
    auto& last = ms[ch.choose(static_cast<int>(ms.size()), "incomplete message")];
    bytes b = stream(true, std::vector<Msg>(ms.begin(), ms.begin() + n));
    bytes body = payloadOf(last);
    MV t = v1Head(last, body.size());
    t.p[3].p[2].d = 5000;
    if (what == 0) t.p.erase(4);
    if (what == 1) t.p.erase(3);
    if (what == 2) t.p[3].p.erase(1);
    if (what == 3) t.p.clear();
    bytes h;
    cref::encode(h, t, transportHeader());
    b.push_back(static_cast<uint8_t>(h.size())); b.push_back(static_cast<uint8_t>(h.size() >> 8));
    b.insert(b.end(), h.begin(), h.end());
    b.insert(b.end(), body.begin(), body.end());
    bytes more = stream(true, { tiny(1), tiny(2), tiny(3), sized(4, 300) });
    b.insert(b.end(), more.begin(), more.end());
    size_t portion = ch.flag("byte by byte") ? 1 : b.size();
    Rx rx{ true };
    rx.start();
    for (size_t i = 0; i < b.size() && rx.wire->reading(); i += portion) feedAll(rx, b, i, std::min(i + portion, b.size()));
    std::string where = "v1 [" + showMsgs(ms) + "] after " + std::to_string(n) + " a header without " + (what == 0 ? "a size" : what == 1 ? "a message header" : what == 2 ? "a type" : "anything");
    std::string e = expectGot(rx, ms, n);
    vh::checkF(e.empty(), [&] { return where + ": " + e; });
    vh::checkF(rx.errors == 1, [&] { return where + ": " + std::to_string(rx.errors) + " errors were reported"; });
    vh::checkF(!rx.wire->reading(), [&] { return where + ": the channel went on reading"; });
    vh::state(vh::mix(vh::hashStr(where), portion));
    vh::outcome(vh::mix(n, what));
    vh::transition();
}

// any sequence of transmissions to two peers of one listener and partial completions of their writes
SCENARIO(writing)
{
    bool v1 = ch.flag("format"), cached = ch.flag("payload cache");
    cache_t cache{};
    struct Tx { wire_t wire = std::make_shared<Wire>(); io::channel_ptr_t c; std::vector<std::string> want; bool failed = false; int errors = 0, wantErrors = 0; } t[2];
    for (auto& x : t)
    {
        x.c = makeChannel(v1, x.wire, cached ? &cache : nullptr, registry());
        x.c->asyncReceive([](io::Transmission) { return true; }, [&x](std::exception_ptr) { auto& y = x; ++y.errors; y.c.reset(); });
    }
    static const std::vector<Msg> ms{ tiny(1), fullHead(2), sized(3, 300) };
    std::vector<io::Transmission> kept; // what the host distributes more than once
    int depth = vh::bound(5, 6);
    auto wanted = [&](const Msg& m) { return wantFrame(v1, m); };
    auto look = [&](const char* when) {
        for (int i = 0; i < 2; ++i)
        {
            vh::checkF(t[i].errors == t[i].wantErrors, [&] { return fmt(v1) + ": " + std::to_string(t[i].errors) + " errors were reported, " + std::to_string(t[i].wantErrors) + " writes failed"; });
            std::vector<Frame> fs;
            try { fs = split(v1, t[i].wire->out, registry()); }
            catch (const cref::Bad& bad) { vh::check(false, fmt(v1) + ": what was written is malformed: " + bad.what); }
            vh::checkF(fs.size() <= t[i].want.size(), [&] { return fmt(v1) + ": more was written than transmitted"; });
            for (size_t k = 0; k < fs.size(); ++k)
            {
                bool timeGiven = fs[k].head.p.count(3) && t[i].want[k].find("2=1234567.5") != std::string::npos;
                vh::checkF(showFrame(v1, fs[k], timeGiven) == t[i].want[k], [&] { return fmt(v1) + (cached ? " cached" : "") + ": message " + std::to_string(k) + " was written as " + showFrame(v1, fs[k], timeGiven) + ", transmitted " + t[i].want[k]; });
            }
            size_t whole = fs.empty() ? 0 : fs.back().end;
            if (!t[i].wire->writing() && !t[i].failed) vh::checkF(fs.size() == t[i].want.size() && whole == t[i].wire->out.size(), [&] { return fmt(v1) + ": " + std::to_string(fs.size()) + " of " + std::to_string(t[i].want.size()) + " messages were written at rest, " + when; });
        }
    };
    uint64_t h = vh::mix(v1, cached);
    for (int step = 0; step < depth; ++step)
    {
        struct A { int kind, i, m; };
        std::vector<A> as{ { -1, 0, 0 } };
        for (int i = 0; i < 2; ++i) if (!t[i].failed)
        {
            for (int m = 0; m < 2 && t[i].c; ++m) as.push_back({ 0, i, m });
            for (int k = 0; k < static_cast<int>(kept.size()) && t[i].c; ++k) as.push_back({ 1, i, k });
            if (t[i].wire->writing()) { for (int n = 0; n < 3; ++n) as.push_back({ 2, i, n }); as.push_back({ 3, i, 0 }); if (t[i].c) as.push_back({ 4, i, 0 }); }
        }
        if (kept.size() < 2 && t[0].c && t[1].c) { as.push_back({ 5, 0, 0 }); as.push_back({ 5, 0, 2 }); }
        A a = ch.of(as, "step");
        if (a.kind < 0) break;
        auto& x = t[a.i];
        switch (a.kind)
        {
            case 0: x.c->transmit(ms[a.m].header, *ms[a.m].instance); x.want.push_back(wanted(ms[a.m])); break;
            case 1:
            {
                Msg m{ "kept", kept[a.m].header(), kept[a.m].instance() };
                x.c->transmit(kept[a.m]);
                x.want.push_back(wanted(m));
                break;
            }
            case 2: x.wire->write(a.m == 0 ? 1 : a.m == 1 ? (x.wire->wlen + 1) / 2 : x.wire->wlen); break;
            case 3: x.wantErrors += x.c != nullptr; x.wire->failWrite(); x.failed = true; break;
            case 4: x.c.reset(); break;
            case 5: kept.emplace_back(ms[a.m].header, AnyStruct{ *ms[a.m].instance }); t[0].c->transmit(kept.back()); t[0].want.push_back(wanted(ms[a.m])); break;
        }
        if (ch.tracing()) ch.note("action " + std::to_string(a.kind) + " at " + std::to_string(a.i) + " with " + std::to_string(a.m));
        h = vh::mix(h, vh::mix(a.kind, vh::mix(a.i, a.m)));
        vh::state(h);
        vh::transition();
        look("during the exchange");
    }
    // a channel nobody refers to any more still writes what it was given, then goes away
    for (auto& x : t) x.c.reset();
    for (auto& x : t) while (x.wire->writing()) x.wire->write(x.wire->wlen);
    look("at the end");
    for (auto& x : t) { x.wire->abortOrphans(); vh::checkF(x.wire->gone, [&] { return fmt(v1) + ": the stream was not released"; }); }
    vh::outcome(vh::mix(t[0].wire->out.size(), t[1].wire->out.size()));
}

// a transmission that cannot be encoded is refused, and what follows still arrives
SCENARIO(refused)
{
    bool v1 = ch.flag("format"), cached = ch.flag("payload cache"), asTransmission = ch.flag("transmission");
    int bad = ch.choose(2, "kind of refusal");
    int before = ch.choose(2, "before"), draining = ch.choose(3, "when written");
    cache_t cache{};
    wire_t w = std::make_shared<Wire>();
    io::channel_ptr_t c = makeChannel(v1, w, cached ? &cache : nullptr, registry());
    std::vector<Msg> want;
    auto send = [&](const Msg& m) { c->transmit(io::Transmission{ m.header, AnyStruct{ *m.instance } }); };
    VAll a = static_cast<const VAll&>(*all().instance);
    c->transmit(static_cast<const Descriptor<>&>(a._descriptor()));
    while (w->writing()) w->write(w->wlen);
    w->out.clear();
    if (before) { send(sized(1, 30)); want.push_back(sized(1, 30)); }
    if (draining == 1) while (w->writing()) w->write(w->wlen);
    Msg m = all();
    if (bad == 0) m.header.attributes.reset();
    else { a.en = static_cast<VEnum>(12345); m.instance = AnyStruct{ a }; }
    bool refused = false;
    for (int n = 0; n < 2; ++n)
    {
        try { if (asTransmission) send(m); else c->transmit(m.header, *m.instance); }
        catch (const std::exception&) { refused = true; }
    }
    std::string where = fmt(v1) + (bad == 0 ? ": an instance without attributes" : ": an instance with a value its enum does not have");
    vh::checkF(refused, [&] { return where + " was not refused"; });
    if (draining == 2) while (w->writing()) w->write(w->wlen);
    send(tiny(3)); want.push_back(tiny(3));
    send(fullHead(4)); want.push_back(fullHead(4));
    while (w->writing()) w->write(w->wlen);
    std::vector<Frame> fs;
    std::string e;
    try { fs = split(v1, w->out, registry()); }
    catch (const cref::Bad& b) { e = b.what; }
    vh::checkF(e.empty(), [&] { return where + " left a malformed stream: " + e; });
    vh::checkF(fs.size() == want.size() && (fs.empty() ? w->out.empty() : fs.back().end == w->out.size()), [&] { return where + ": " + std::to_string(fs.size()) + " messages were written"; });
    for (size_t i = 0; i < fs.size(); ++i) vh::checkF(eq(fs[i].body, want[i].body()), [&] { return where + ": message " + std::to_string(i) + " was written as " + str(fs[i].body); });
    vh::state(vh::hashStr(where + std::to_string(before * 8 + draining * 2 + cached) + (asTransmission ? "t" : "")));
    vh::outcome(vh::hashStr(where));
}

// a message of any size is written whole, however it is given
SCENARIO(written_sizes)
{
    bool v1 = ch.flag("format");
    int via = ch.choose(3, "via"); // header and instance; transmission; transmission found in the payload cache
    static const std::vector<int> sizes{ 0, 1, 22, 23, 24, 200, 230, 255, 256, 65000, 65500, 65535, 65536, 1 << 20, (1 << 23) + 5, (1 << 24) + 3 };
    int s = ch.of(sizes, "size");
    cache_t cache{};
    wire_t w = std::make_shared<Wire>(), other = std::make_shared<Wire>();
    io::channel_ptr_t c = makeChannel(v1, w, &cache, registry()), o = makeChannel(v1, other, &cache, registry());
    std::vector<Msg> ms{ sized(1, s), tiny(2), sized(3, s > 1 << 20 ? 5 : s), tiny(4) };
    for (auto& m : ms)
    {
        io::Transmission t{ m.header, AnyStruct{ *m.instance } };
        if (via == 2) { o->transmit(t); while (other->writing()) other->write(other->wlen); }
        if (via == 0) c->transmit(m.header, *m.instance); else c->transmit(t);
        while (w->writing()) w->write(w->wlen);
    }
    for (auto& x : { w, via == 2 ? other : w })
    {
        std::vector<Frame> fs;
        std::string e;
        try { fs = split(v1, x->out, registry()); }
        catch (const cref::Bad& b) { e = b.what; }
        std::string where = fmt(v1) + ": messages of " + std::to_string(s) + " characters were written as ";
        vh::checkF(e.empty(), [&] { return where + "a malformed stream: " + e; });
        vh::checkF(fs.size() == ms.size() && fs.back().end == x->out.size(), [&] { return where + std::to_string(fs.size()) + " messages"; });
        for (size_t i = 0; i < fs.size(); ++i) vh::checkF(eq(fs[i].body, ms[i].body()), [&] { return where + "something else"; });
    }
    vh::state(vh::mix(s, v1 + via * 2));
    vh::outcome(s);
}

// a peer that does not read: up to the limit everything is kept, beyond it transmissions are refused
SCENARIO(slow_peer)
{
    bool v1 = ch.flag("format");
    int via = ch.choose(4, "via"); // header and instance; transmission; transmission found in the payload cache; transmission given to others afterwards
    size_t unit = ch.flag("large") ? 3u << 20 : 700u << 10;
    cache_t cache{};
    wire_t w = std::make_shared<Wire>(), other = std::make_shared<Wire>();
    io::channel_ptr_t c = makeChannel(v1, w, &cache, registry()), o = makeChannel(v1, other, &cache, registry());
    Msg m = sized(1, unit);
    Registry& reg = registry();
    size_t limit = 10u << 20, given = 0;
    bool refused = false;
    bytes ref = frame(v1, m);
    int sent = 0;
    while (!refused && given < 40u << 20)
    {
        size_t pending = given < ref.size() ? 0 : given - ref.size(); // the first is being written
        m = sized(sent + 1, unit);
        io::Transmission t{ m.header, AnyStruct{ *m.instance } };
        if (via == 2) { o->transmit(t); while (other->writing()) other->write(other->wlen); other->out.clear(); }
        try
        {
            if (via == 0) c->transmit(m.header, *m.instance);
            else c->transmit(t);
            ++sent;
            given += ref.size();
        }
        catch (const std::exception&)
        {
            refused = true;
            vh::checkF(pending + (64u << 10) > limit, [&] { return fmt(v1) + ": refused with " + std::to_string(pending) + " bytes waiting"; });
        }
        if (via == 3)
        {
            o->transmit(t);
            while (other->writing()) other->write(other->wlen);
            std::vector<Frame> fs;
            try { fs = split(v1, other->out, reg); }
            catch (const cref::Bad& b) { vh::check(false, "malformed: " + b.what); }
            vh::checkF(fs.size() == 1 && eq(fs[0].body, m.body()), [&] { return fmt(v1) + (refused ? ": what one peer could not take" : ": what one peer was given before") + " reached another one as something else"; });
            other->out.clear();
        }
    }
    vh::checkF(refused, [&] { return fmt(v1) + (via == 2 ? " through the payload cache" : "") + ": 40 MB were buffered for a peer that does not read"; });
    while (w->writing()) w->write(w->wlen);
    std::vector<Frame> fs;
    try { fs = split(v1, w->out, registry()); }
    catch (const cref::Bad& b) { vh::check(false, "malformed: " + b.what); }
    vh::checkF(static_cast<int>(fs.size()) == sent, [&] { return fmt(v1) + ": " + std::to_string(fs.size()) + " of " + std::to_string(sent) + " accepted messages were written"; });
    vh::state(vh::mix(via, unit + v1));
    vh::outcome(sent);
}

// what one channel writes another one reads, type descriptions included
SCENARIO(round_trip)
{
    bool v1 = ch.flag("format");
    bool fresh = ch.flag("types unknown to the receiver");
    size_t portion = ch.of(std::vector<size_t>{ 1, 3, 2048, 1u << 30 }, "portion");
    std::vector<Msg> ms;
    static const std::vector<Msg> choices{ tiny(1), all(), pair(2), fullHead(3), sized(5, 5000) };
    int n = vh::bound(2, 3);
    for (int i = 0; i < n; ++i) ms.push_back(ch.of(choices, "message"));
    Registry own{ std::nullopt, Registry::StaticTypePolicy::InternalOnly };
    if (fresh) { VInternalT::_Descriptor(); }
    Rx rx{ v1, fresh ? own : registry() };
    rx.start();
    wire_t w = std::make_shared<Wire>();
    io::channel_ptr_t c = makeChannel(v1, w, nullptr, registry());
    for (auto& m : ms) c->transmit(m.header, *m.instance);
    size_t sent = 0;
    while (w->writing())
    {
        w->write(portion);
        while (sent < w->out.size() && rx.wire->reading()) sent += rx.wire->feed(w->out.data() + sent, w->out.size() - sent);
        vh::transition();
        if (!rx.wire->reading()) break;
    }
    vh::check(rx.errors == 0, fmt(v1) + ": an error was reported");
    std::vector<std::pair<MV, MV>> got;
    for (size_t i = 0; i < rx.got.size(); ++i) if (rx.types[i] != "StructDescriptorData" && rx.types[i] != "EnumDescriptorData") got.push_back(rx.got[i]);
    for (size_t i = 0; i < got.size() && i < ms.size(); ++i) if (v1 && ms[i].head().p.count(2) == 0) got[i].first.p[2] = MV::F(Type::timepoint, 5000);
    rx.got = got;
    std::string e = expectGot(rx, ms, ms.size());
    vh::checkF(e.empty(), [&] { return fmt(v1) + " [" + showMsgs(ms) + "]: " + e; });
    vh::state(vh::mix(vh::hashStr(showMsgs(ms)), portion + v1 * 7 + fresh));
    vh::outcome(vh::hashStr(showMsgs(ms)));
}

VH_MAIN
