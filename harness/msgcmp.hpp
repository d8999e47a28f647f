// Semantic comparison of protobuf messages through reflection.
//  - A sub-message that is absent equals one that holds only defaults, except
//    for members of a oneof and where `presence` says presence itself matters.
//  - Two places that are both empty (loc == 0) are equal.
#pragma once
#include <google/protobuf/descriptor.h>
#include <google/protobuf/message.h>
#include <string>

namespace vf
{

using PbMsg = google::protobuf::Message;
using PbField = google::protobuf::FieldDescriptor;

inline bool presence_matters(PbField const* f)
{
	return f->containing_type()->full_name() == "YGOpen.Proto.Duel.Msg.Query.Data";
}

inline std::string pb_scalar(PbMsg const& m, PbField const* f, int i)
{
	auto const* r = m.GetReflection();
	auto s = [](auto v) { return std::to_string(v); };
	switch(f->cpp_type())
	{
	case PbField::CPPTYPE_INT32:
		return s(i < 0 ? r->GetInt32(m, f) : r->GetRepeatedInt32(m, f, i));
	case PbField::CPPTYPE_INT64:
		return s(i < 0 ? r->GetInt64(m, f) : r->GetRepeatedInt64(m, f, i));
	case PbField::CPPTYPE_UINT32:
		return s(i < 0 ? r->GetUInt32(m, f) : r->GetRepeatedUInt32(m, f, i));
	case PbField::CPPTYPE_UINT64:
		return s(i < 0 ? r->GetUInt64(m, f) : r->GetRepeatedUInt64(m, f, i));
	case PbField::CPPTYPE_BOOL:
		return (i < 0 ? r->GetBool(m, f) : r->GetRepeatedBool(m, f, i)) ? "true"
		                                                                 : "false";
	case PbField::CPPTYPE_ENUM:
		return s(i < 0 ? r->GetEnumValue(m, f) : r->GetRepeatedEnumValue(m, f, i));
	case PbField::CPPTYPE_STRING:
		return i < 0 ? r->GetString(m, f) : r->GetRepeatedString(m, f, i);
	case PbField::CPPTYPE_FLOAT:
		return s(i < 0 ? r->GetFloat(m, f) : r->GetRepeatedFloat(m, f, i));
	case PbField::CPPTYPE_DOUBLE:
		return s(i < 0 ? r->GetDouble(m, f) : r->GetRepeatedDouble(m, f, i));
	default: return "?";
	}
}

// Returns the empty string if equal, otherwise where and how they differ.
inline std::string pb_diff(PbMsg const& want, PbMsg const& got,
                           std::string const& path = "")
{
	auto const* d = want.GetDescriptor();
	if(d != got.GetDescriptor())
		return path + ": type " + got.GetDescriptor()->full_name();
	auto const* rw = want.GetReflection();
	auto const* rg = got.GetReflection();
	if(d->full_name() == "YGOpen.Proto.Duel.Place")
	{
		auto const* fl = d->FindFieldByName("loc");
		if(fl != nullptr && rw->GetUInt32(want, fl) == 0 &&
		   rg->GetUInt32(got, fl) == 0)
			return "";
	}
	for(int i = 0; i < d->field_count(); i++)
	{
		auto const* f = d->field(i);
		std::string p = path + "/" + f->name();
		if(f->is_repeated())
		{
			int nw = rw->FieldSize(want, f);
			int ng = rg->FieldSize(got, f);
			int n = std::min(nw, ng);
			for(int k = 0; k < n; k++)
			{
				std::string pk = p + "[" + std::to_string(k) + "]";
				if(f->cpp_type() == PbField::CPPTYPE_MESSAGE)
				{
					auto s = pb_diff(rw->GetRepeatedMessage(want, f, k),
					                 rg->GetRepeatedMessage(got, f, k), pk);
					if(!s.empty())
						return s;
				}
				else
				{
					auto a = pb_scalar(want, f, k), b = pb_scalar(got, f, k);
					if(a != b)
						return pk + ": expected " + a + ", got " + b;
				}
			}
			if(nw != ng)
				return p + ": expected " + std::to_string(nw) +
				       " elements, got " + std::to_string(ng);
			continue;
		}
		bool const in_oneof = f->containing_oneof() != nullptr;
		if(f->cpp_type() == PbField::CPPTYPE_MESSAGE)
		{
			bool hw = rw->HasField(want, f), hg = rg->HasField(got, f);
			if(!hw && !hg)
				continue;
			if((in_oneof || presence_matters(f)) && hw != hg)
				return p + (hw ? ": missing" : ": unexpected");
			auto s =
				pb_diff(rw->GetMessage(want, f), rg->GetMessage(got, f), p);
			if(!s.empty())
				return s;
			continue;
		}
		if(in_oneof)
		{
			bool hw = rw->HasField(want, f), hg = rg->HasField(got, f);
			if(hw != hg)
				return p + (hw ? ": missing" : ": unexpected");
			if(!hw)
				continue;
		}
		auto a = pb_scalar(want, f, -1), b = pb_scalar(got, f, -1);
		if(a != b)
			return p + ": expected " + a + ", got " + b;
	}
	return "";
}

} // namespace vf
