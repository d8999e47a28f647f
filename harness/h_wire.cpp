// W01: messages of the protocol as it was (frozen/*.proto, loaded at run time)
// against the protocol as it is now, both ways, with random contents.
#include "pbfill.hpp"
#include <google/protobuf/compiler/importer.h>
#include <google/protobuf/dynamic_message.h>
#include <google/protobuf/unknown_field_set.h>

#include <dirent.h>

using namespace vf;
namespace gp = google::protobuf;
using M = gp::Message;
using F = gp::FieldDescriptor;

namespace
{

struct Errors final : gp::compiler::MultiFileErrorCollector
{
	std::string all;
	void AddError(const std::string& f, int line, int, const std::string& m) override
	{
		all += f + ":" + std::to_string(line) + ": " + m + "\n";
	}
};

struct World
{
	gp::compiler::DiskSourceTree tree;
	Errors errors;
	std::unique_ptr<gp::compiler::Importer> importer;
	gp::DynamicMessageFactory factory;
	std::vector<gp::Descriptor const*> roots;
	std::map<std::string, int> enums;

	World()
	{
		std::string const dir = std::string(VF_ROOT) + "/frozen";
		tree.MapPath("", dir);
		importer = std::make_unique<gp::compiler::Importer>(&tree, &errors);
		std::vector<std::string> files;
		if(DIR* d = ::opendir(dir.c_str()))
		{
			while(auto* e = ::readdir(d))
			{
				std::string n = e->d_name;
				if(n.size() > 6 && n.substr(n.size() - 6) == ".proto")
					files.push_back(n);
			}
			::closedir(d);
		}
		std::sort(files.begin(), files.end());
		for(auto const& n : files)
		{
			auto const* f = importer->Import(n);
			if(f == nullptr)
			{
				std::fprintf(stderr, "frozen protocol: %s\n", errors.all.c_str());
				std::exit(2);
			}
			for(int i = 0; i < f->message_type_count(); i++)
				roots.push_back(f->message_type(i));
		}
		if(roots.empty())
		{
			std::fprintf(stderr, "no frozen protocol in %s\n", dir.c_str());
			std::exit(2);
		}
	}
};

World& world()
{
	static World w;
	return w;
}

std::string scalar(M const& m, F const* f, int i)
{
	auto const* r = m.GetReflection();
	switch(f->cpp_type())
	{
	case F::CPPTYPE_INT32:
		return std::to_string(i < 0 ? r->GetInt32(m, f) : r->GetRepeatedInt32(m, f, i));
	case F::CPPTYPE_INT64:
		return std::to_string(i < 0 ? r->GetInt64(m, f) : r->GetRepeatedInt64(m, f, i));
	case F::CPPTYPE_UINT32:
		return std::to_string(i < 0 ? r->GetUInt32(m, f) : r->GetRepeatedUInt32(m, f, i));
	case F::CPPTYPE_UINT64:
		return std::to_string(i < 0 ? r->GetUInt64(m, f) : r->GetRepeatedUInt64(m, f, i));
	case F::CPPTYPE_BOOL:
		return (i < 0 ? r->GetBool(m, f) : r->GetRepeatedBool(m, f, i)) ? "true" : "false";
	case F::CPPTYPE_ENUM:
	{
		// What counts is what the value is called.
		auto const* v = i < 0 ? r->GetEnum(m, f) : r->GetRepeatedEnum(m, f, i);
		return v->name();
	}
	case F::CPPTYPE_STRING:
		return i < 0 ? r->GetString(m, f) : r->GetRepeatedString(m, f, i);
	case F::CPPTYPE_FLOAT:
		return std::to_string(i < 0 ? r->GetFloat(m, f) : r->GetRepeatedFloat(m, f, i));
	case F::CPPTYPE_DOUBLE:
		return std::to_string(i < 0 ? r->GetDouble(m, f) : r->GetRepeatedDouble(m, f, i));
	default: return "";
	}
}

// Everything `old` knows means the same in both; `old_desc` rules.
std::string compare(M const& a, M const& b, gp::Descriptor const* old_desc,
                    std::string const& path)
{
	auto const* ra = a.GetReflection();
	auto const* rb = b.GetReflection();
	for(int i = 0; i < old_desc->field_count(); i++)
	{
		auto const& name = old_desc->field(i)->name();
		auto const p = path + "." + name;
		auto const* fa = a.GetDescriptor()->FindFieldByName(name);
		auto const* fb = b.GetDescriptor()->FindFieldByName(name);
		if(fa == nullptr || fb == nullptr)
			return p + ": the field is gone";
		if(fa->is_repeated() != fb->is_repeated())
			return p + ": repeated or not";
		bool const ma = fa->cpp_type() == F::CPPTYPE_MESSAGE,
				   mb = fb->cpp_type() == F::CPPTYPE_MESSAGE;
		if(ma != mb)
			return p + ": a message or not";
		if(fa->is_repeated())
		{
			int const n = ra->FieldSize(a, fa);
			if(n != rb->FieldSize(b, fb))
				return p + ": " + std::to_string(n) + " elements, read as " +
				       std::to_string(rb->FieldSize(b, fb));
			for(int k = 0; k < n; k++)
			{
				if(ma)
				{
					auto d = compare(ra->GetRepeatedMessage(a, fa, k),
					                 rb->GetRepeatedMessage(b, fb, k),
					                 old_desc->field(i)->message_type(), p);
					if(!d.empty())
						return d;
				}
				else if(scalar(a, fa, k) != scalar(b, fb, k))
					return p + ": '" + scalar(a, fa, k) + "' read as '" + scalar(b, fb, k) + "'";
				count("values_compared");
			}
			continue;
		}
		bool const presence = fa->has_presence() || fb->has_presence();
		if(presence && ra->HasField(a, fa) != rb->HasField(b, fb))
			return p + (ra->HasField(a, fa) ? ": lost" : ": appeared");
		if(ma)
		{
			if(ra->HasField(a, fa))
			{
				auto d = compare(ra->GetMessage(a, fa), rb->GetMessage(b, fb),
				                 old_desc->field(i)->message_type(), p);
				if(!d.empty())
					return d;
			}
		}
		else if(scalar(a, fa, -1) != scalar(b, fb, -1))
			return p + ": '" + scalar(a, fa, -1) + "' read as '" + scalar(b, fb, -1) + "'";
		count("values_compared");
	}
	return "";
}

// Fields that the reader did not recognise although it should.
std::string unknown(M const& m, std::string const& path)
{
	auto const* r = m.GetReflection();
	if(!r->GetUnknownFields(m).empty())
		return path + ": field number " +
		       std::to_string(r->GetUnknownFields(m).field(0).number()) + " is not understood";
	std::vector<F const*> fs;
	r->ListFields(m, &fs);
	for(auto const* f : fs)
	{
		if(f->cpp_type() != F::CPPTYPE_MESSAGE)
			continue;
		int const n = f->is_repeated() ? r->FieldSize(m, f) : 1;
		for(int i = 0; i < n; i++)
		{
			auto d = unknown(f->is_repeated() ? r->GetRepeatedMessage(m, f, i)
			                                  : r->GetMessage(m, f),
			                 path + "." + f->name());
			if(!d.empty())
				return d;
		}
	}
	return "";
}

// Every field gets its turn even in big oneofs: the fill is random, and there
// are many cases.
void wire_case(Rng& r)
{
	auto& w = world();
	auto const* od = w.roots[run().cur % w.roots.size()];
	at(od->full_name());
	auto const* nd = gp::DescriptorPool::generated_pool()->FindMessageTypeByName(od->full_name());
	if(nd == nullptr)
		return violate({"W01"}, "gone:" + od->full_name(), od->full_name() + " is gone");
	auto const* op = w.factory.GetPrototype(od);
	auto const* np = gp::MessageFactory::generated_factory()->GetPrototype(nd);
	FillOpts o;
	o.small = r.chance(1, 3);
	o.depth = 8;
	auto bad = [&](std::string const& dir, std::string const& d, M const& m)
	{
		violate({"W01"}, "wire:" + d.substr(0, d.find(':')),
		        dir + ": " + d + "; message " + m.ShortDebugString().substr(0, 500));
	};
	{
		std::unique_ptr<M> a(op->New()), b(np->New()), c(op->New());
		pb_fill(r, *a, o);
		auto const s = a->SerializeAsString();
		count("old_to_new");
		maxi("message_size", s.size());
		if(!b->ParseFromString(s))
			return bad("old to new", od->full_name() + ": not readable", *a);
		auto d = unknown(*b, od->full_name());
		if(d.empty())
			d = compare(*a, *b, od, od->full_name());
		if(!d.empty())
			return bad("old to new", d, *a);
		if(!c->ParseFromString(b->SerializeAsString()))
			return bad("old to new and back", od->full_name() + ": not readable", *a);
		d = compare(*a, *c, od, od->full_name());
		if(!d.empty())
			return bad("old to new and back", d, *a);
		distinct(s);
		if(run().evaluations % 499 == 0)
			sample(od->full_name() + " " + a->ShortDebugString().substr(0, 300));
	}
	{
		std::unique_ptr<M> a(np->New()), b(op->New());
		pb_fill(r, *a, o);
		count("new_to_old");
		if(!b->ParseFromString(a->SerializeAsString()))
			return bad("new to old", od->full_name() + ": not readable", *a);
		// A new alternative of a oneof makes the old reader see none.
		auto d = compare(*b, *a, od, od->full_name());
		if(!d.empty())
			return bad("new to old", d, *a);
	}
}

} // namespace

int main(int argc, char** argv) { return drive(argc, argv, wire_case); }
