// Channels whose deliveries are steps of the exploration. Everything sent crosses as encoded bytes and is rebuilt with the
// receiver's own types, as on a real transport.
#pragma once
#include "dyn.h"
#include <deque>
#include <dots/asio.h>
#include <dots/io/Channel.h>
#include <dots/io/Listener.h>
#include <dots/serialization/CborSerializer.h>
#include <DotsHeader.dots.h>
#include <StructDescriptorData.dots.h>
#include <EnumDescriptorData.dots.h>

namespace sim
{
    using dx::MV;
    using dx::readStruct;
    namespace io = dots::io;
    namespace type = dots::type;

    inline dots::asio::io_context& ioc() { static dots::asio::io_context c; return c; }

    struct Packet
    {
        std::string type;
        MV head, body;               // as the sender described them
        std::vector<uint8_t> hdr, data;
        bool eof = false;
        bool isType() const { return type == "StructDescriptorData" || type == "EnumDescriptorData"; }
        bool is(const char* n) const { return !eof && type == n; }
        const MV* h(uint32_t tag) const { auto it = head.p.find(tag); return it == head.p.end() ? nullptr : &it->second; }
        const MV* b(uint32_t tag) const { auto it = body.p.find(tag); return it == body.p.end() ? nullptr : &it->second; }
    };

    inline Packet encode(const dots::types::DotsHeader& header, const type::Struct& instance)
    {
        Packet p;
        p.type = *header.typeName;
        if (p.isType()) // the bytes tell the rest
        {
            const std::string& name = p.type == "StructDescriptorData" ? *instance._to<dots::types::StructDescriptorData>().name : *instance._to<dots::types::EnumDescriptorData>().name;
            p.body = MV::St({ { 1, MV::S(name) } });
            p.head = MV::St({});
        }
        else
        {
            p.head = readStruct(header);
            p.body = dx::mOnly(readStruct(instance), header.attributes->toValue());
        }
        auto d = dots::to_cbor(instance, *header.attributes);
        p.data.assign(d.begin(), d.end());
        auto h = dots::to_cbor(header);
        p.hdr.assign(h.begin(), h.end());
        return p;
    }
    inline Packet encode(const type::Struct& instance, bool remove = false)
    {
        return encode(dots::types::DotsHeader{ .typeName = instance._descriptor().name(), .sentTime = dots::timepoint_t::Now(), .attributes = instance._validProperties(), .removeObj = remove }, instance);
    }

    class SimChannel;

    // A connection between side 0 and side 1; either end may be played by the harness.
    struct Link
    {
        std::deque<Packet> q[2];   // travelling towards the side
        std::vector<Packet> sent[2]; // everything ever sent towards the side
        SimChannel* end[2] = { nullptr, nullptr };
        bool gone[2] = { false, false };   // the side's channel no longer exists
        int failFrom[2] = { -1, -1 };      // the side's transmissions throw once this many were sent, type descriptions aside
        int count[2] = { 0, 0 };
        int stuck[2] = { 0, 0 };           // transmissions of the side that threw
        int failTimes[2] = { -1, -1 };     // how often they throw (-1: ever after)
        bool dropAfterGone = true;
        void push(int from, Packet p)
        {
            if (!p.isType()) ++count[1 - from];
            if (gone[1 - from]) return;
            sent[1 - from].push_back(p);
            q[1 - from].push_back(std::move(p));
        }
    };
    using link_t = std::shared_ptr<Link>;

    class SimChannel : public io::Channel
    {
    public:
        SimChannel(key_t key, link_t link, int side, const std::string& uri = "local:/") : Channel(key), m_link(std::move(link)), m_side(side)
        {
            initEndpoints(io::Endpoint{ uri }, io::Endpoint{ uri });
            m_link->end[side] = this;
        }
        ~SimChannel() noexcept override
        {
            m_link->end[m_side] = nullptr;
            m_link->gone[m_side] = true;
            m_link->q[m_side].clear();
            Packet p; p.eof = true;
            if (!m_link->gone[1 - m_side]) m_link->q[1 - m_side].push_back(p);
        }
        bool armed() const { return m_armed; }
        int arms = 0;

        // one delivery; the caller holds no reference, as an I/O context would not
        void deliver()
        {
            auto self = shared_from_this();
            Packet p = std::move(m_link->q[m_side].front());
            m_link->q[m_side].pop_front();
            m_armed = false;
            if (p.eof) { fail("the peer closed the transport"); return; }
            std::optional<io::Transmission> t;
            try
            {
                dots::types::DotsHeader header;
                dots::from_cbor(p.hdr, header);
                const type::StructDescriptor* d = registry().findStructType(*header.typeName);
                if (d == nullptr) throw std::runtime_error{ "encountered unknown type: " + *header.typeName };
                type::AnyStruct instance{ *d };
                dots::from_cbor(p.data, instance.get());
                t.emplace(std::move(header), std::move(instance));
            }
            catch (...)
            {
                processError(std::current_exception());
                return;
            }
            processReceive(std::move(*t));
        }
        void fail(const std::string& what)
        {
            auto self = shared_from_this();
            m_armed = false;
            processError(what);
        }
    protected:
        void asyncReceiveImpl() override { m_armed = true; ++arms; }
        using Channel::transmitImpl;
        void transmitImpl(const dots::types::DotsHeader& header, const type::Struct& instance) override
        {
            if (m_link->failFrom[m_side] >= 0 && m_link->count[1 - m_side] >= m_link->failFrom[m_side] && m_link->stuck[m_side] != m_link->failTimes[m_side])
            {
                ++m_link->stuck[m_side];
                throw std::runtime_error{ "the transport is broken" };
            }
            m_link->push(m_side, encode(header, instance));
        }
    private:
        link_t m_link;
        int m_side;
        bool m_armed = false;
    };

    class SimListener : public io::Listener
    {
    public:
        void accept(io::channel_ptr_t c) { processAccept(std::move(c)); }
        void fail() { processError("the listener failed"); }
    protected:
        void asyncAcceptImpl() override {}
    };
}
