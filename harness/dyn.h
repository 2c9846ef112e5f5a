// Run-time described twins of compiled types: rebuilt from descriptor data in a registry of their own.
#pragma once
#include "dx.h"
#include <dots/type/Registry.h>
#include <dots/io/DescriptorConverter.h>

namespace dx
{
    struct DynWorld
    {
        Registry reg{ std::nullopt, Registry::StaticTypePolicy::InternalOnly };
        dots::io::DescriptorConverter conv{ reg };

        // describes the compiled type and everything it depends on, then builds the dynamic type
        const StructDescriptor& twin(const StructDescriptor& d)
        {
            if (auto* have = reg.findStructType(d.name())) return *have;
            for (const PropertyDescriptor& pd : d.propertyDescriptors()) dep(pd.valueDescriptor());
            auto data = conv(d);
            return conv(data);
        }
        void dep(const Descriptor<>& v)
        {
            if (v.type() == Type::Struct) twin(static_cast<const StructDescriptor&>(v));
            else if (v.type() == Type::Enum) { if (!reg.hasType(v.name())) conv(conv(static_cast<const EnumDescriptor&>(v))); }
            else if (v.type() == Type::Vector) dep(static_cast<const Descriptor<Vector<>>&>(v).valueDescriptor());
        }
    };
    inline DynWorld& dynWorld() { static DynWorld w; return w; }
}
