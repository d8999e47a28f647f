// Random contents for any protobuf message, through reflection.
#pragma once
#include "common.hpp"
#include <google/protobuf/descriptor.h>
#include <google/protobuf/message.h>

namespace vf
{

struct FillOpts
{
	int depth = 6;
	unsigned max_repeat = 3;
	bool small = false; // Small numbers more often than not.
	// Unknown enum values as well (open enums).
	bool wild_enums = false;
};

template<typename T>
T fill_num(Rng& rng, FillOpts const& o)
{
	if(o.small && rng.chance(4, 5))
		return static_cast<T>(rng.below(9)) - static_cast<T>(std::is_signed_v<T> ? 1 : 0);
	return rng.any<T>();
}

inline void pb_fill(Rng& rng, google::protobuf::Message& m, FillOpts const& o = {});

inline void pb_fill_field(Rng& rng, google::protobuf::Message& m,
                          google::protobuf::FieldDescriptor const* f, FillOpts const& o)
{
	using F = google::protobuf::FieldDescriptor;
	auto const* r = m.GetReflection();
	auto const n = f->is_repeated() ? rng.below(o.max_repeat + 1) : 1;
	auto sub = o;
	sub.depth--;
	for(uint64_t i = 0; i < n; i++)
	{
		switch(f->cpp_type())
		{
#define VF_NUM(K, T, Name)                                        \
	case F::CPPTYPE_##K:                                          \
		if(f->is_repeated())                                      \
			r->Add##Name(&m, f, fill_num<T>(rng, o));             \
		else                                                      \
			r->Set##Name(&m, f, fill_num<T>(rng, o));             \
		break;
			VF_NUM(INT32, int32_t, Int32)
			VF_NUM(INT64, int64_t, Int64)
			VF_NUM(UINT32, uint32_t, UInt32)
			VF_NUM(UINT64, uint64_t, UInt64)
#undef VF_NUM
		case F::CPPTYPE_BOOL:
			if(f->is_repeated())
				r->AddBool(&m, f, rng.coin());
			else
				r->SetBool(&m, f, rng.coin());
			break;
		case F::CPPTYPE_FLOAT:
			if(f->is_repeated())
				r->AddFloat(&m, f, static_cast<float>(rng.below(100)));
			else
				r->SetFloat(&m, f, static_cast<float>(rng.below(100)));
			break;
		case F::CPPTYPE_DOUBLE:
			if(f->is_repeated())
				r->AddDouble(&m, f, static_cast<double>(rng.below(100)));
			else
				r->SetDouble(&m, f, static_cast<double>(rng.below(100)));
			break;
		case F::CPPTYPE_ENUM:
		{
			auto const* e = f->enum_type();
			int v = e->value(static_cast<int>(rng.below(
								 static_cast<uint64_t>(e->value_count()))))
			            ->number();
			if(o.wild_enums && rng.chance(1, 4))
				v = rng.any<int32_t>();
			if(f->is_repeated())
				r->AddEnumValue(&m, f, v);
			else
				r->SetEnumValue(&m, f, v);
			break;
		}
		case F::CPPTYPE_STRING:
		{
			std::string s;
			for(uint64_t k = rng.below(6); k > 0; k--)
				s += static_cast<char>(
					f->type() == F::TYPE_BYTES ? rng.below(256) : rng.range(32, 126));
			if(f->is_repeated())
				r->AddString(&m, f, s);
			else
				r->SetString(&m, f, s);
			break;
		}
		case F::CPPTYPE_MESSAGE:
			if(o.depth <= 0)
				break;
			pb_fill(rng, f->is_repeated() ? *r->AddMessage(&m, f) : *r->MutableMessage(&m, f),
			        sub);
			break;
		}
	}
}

inline void pb_fill(Rng& rng, google::protobuf::Message& m, FillOpts const& o)
{
	auto const* d = m.GetDescriptor();
	for(int i = 0; i < d->field_count(); i++)
	{
		auto const* f = d->field(i);
		if(f->containing_oneof() != nullptr)
			continue;
		if(rng.chance(1, 8))
			continue;
		pb_fill_field(rng, m, f, o);
	}
	for(int i = 0; i < d->oneof_decl_count(); i++)
	{
		auto const* od = d->oneof_decl(i);
		if(rng.chance(1, 12))
			continue;
		pb_fill_field(rng, m,
		              od->field(static_cast<int>(
						  rng.below(static_cast<uint64_t>(od->field_count())))),
		              o);
	}
}

} // namespace vf
