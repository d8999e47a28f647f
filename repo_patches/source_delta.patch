From 0724c90531e332fb444c3c1b729bd5ddd10ac6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:59 +0000
Subject: [PATCH 01/15] fix: choosel/chooser on types wider than unsigned,
 choosel with count 0

---
 include/ygopen/bit.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/ygopen/bit.hpp b/include/ygopen/bit.hpp
index bf98a79..9c20870 100644
--- a/include/ygopen/bit.hpp
+++ b/include/ygopen/bit.hpp
@@ -45,11 +45,9 @@ template<typename T>
 	static_assert(std::is_unsigned_v<T>);
 	T chosen = 0U;
 	unsigned i = std::numeric_limits<T>::digits;
-	while(i != 0U)
+	while(i != 0U && popcnt(chosen) < count)
 	{
-		chosen |= x & (1U << (i - 1U));
-		if(popcnt(chosen) >= count)
-			break;
+		chosen |= x & static_cast<T>(T{1U} << (i - 1U));
 		i--;
 	}
 	return chosen;
@@ -65,7 +63,7 @@ template<typename T>
 	unsigned i = 0;
 	while(i < std::numeric_limits<T>::digits && popcnt(chosen) < count)
 	{
-		chosen |= x & (1U << i);
+		chosen |= x & static_cast<T>(T{1U} << i);
 		i++;
 	}
 	return chosen;
-- 
2.43.0


From 96ac1ba6a527e845d337d3545181e71a89403cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:59 +0000
Subject: [PATCH 02/15] fix: card_swap must index materials by overlay sequence

---
 include/ygopen/client/frame.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ygopen/client/frame.hpp b/include/ygopen/client/frame.hpp
index 2d99318..caf5cb1 100644
--- a/include/ygopen/client/frame.hpp
+++ b/include/ygopen/client/frame.hpp
@@ -397,11 +397,11 @@ public:
 			}
 			else if(!is_a_not_mat && is_b_not_mat)
 			{
-				std::swap(za.materials[a.seq()], zb.card);
+				std::swap(za.materials[a.oseq()], zb.card);
 			}
 			else // !is_a_not_mat && !is_b_not_mat
 			{
-				std::swap(za.materials[a.seq()], zb.materials[b.oseq()]);
+				std::swap(za.materials[a.oseq()], zb.materials[b.oseq()]);
 			}
 		}
 	}
-- 
2.43.0


From 01cb9d16f59d4b052c7c690e89cf98517c2f5a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:59 +0000
Subject: [PATCH 03/15] fix: LimboFrame::pile_resize saved the wrong range when
 shrinking

---
 include/ygopen/client/frame_limbo.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ygopen/client/frame_limbo.hpp b/include/ygopen/client/frame_limbo.hpp
index b7cd24f..17c4cab 100644
--- a/include/ygopen/client/frame_limbo.hpp
+++ b/include/ygopen/client/frame_limbo.hpp
@@ -99,7 +99,7 @@ public:
 		{
 			size_t diff = p.size() - count;
 			rsz_op.slice.resize(diff);
-			std::copy(p.cbegin() + diff, p.cend(), rsz_op.slice.begin());
+			std::copy(p.cbegin() + count, p.cend(), rsz_op.slice.begin());
 			p.resize(count);
 		}
 		assert(p.size() == count);
-- 
2.43.0


From 6a2e2c7330737d6265e065f3773a521753693a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:59 +0000
Subject: [PATCH 04/15] fix: off-by-one in the bounds assertion of
 BasicBoard::lp

---
 include/ygopen/client/board.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ygopen/client/board.hpp b/include/ygopen/client/board.hpp
index 3a9995a..36bcf21 100644
--- a/include/ygopen/client/board.hpp
+++ b/include/ygopen/client/board.hpp
@@ -113,7 +113,7 @@ public:
 		-> LPType&
 	{
 		auto const who = static_cast<size_t>(con);
-		assert(who <= lp_.size());
+		assert(who < lp_.size());
 		return lp_[who];
 	}
 
-- 
2.43.0


From cbb72c2f0e8dd8cfbbfeb19144c6769df23f4a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:59 +0000
Subject: [PATCH 05/15] fix: pile_splice did not check the destination sequence

---
 include/ygopen/client/frame.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ygopen/client/frame.hpp b/include/ygopen/client/frame.hpp
index caf5cb1..bcbfaff 100644
--- a/include/ygopen/client/frame.hpp
+++ b/include/ygopen/client/frame.hpp
@@ -449,6 +449,7 @@ public:
 		}
 		{
 			auto& pile_to = pile(to);
+			assert(to.seq() <= pile_to.size());
 			pile_to.insert(pile_to.begin() + to.seq(),
 			               pile_splice_cache_.cbegin(),
 			               pile_splice_cache_.cend());
-- 
2.43.0


From fe3de47a3531a851fdb4582c053286dcb57fe0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:59 +0000
Subject: [PATCH 06/15] fix: MSG_RELOAD_FIELD placed materials of
 field/pendulum zones out of range

---
 src/codec/edo9300_ocgcore_encode.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/codec/edo9300_ocgcore_encode.cpp b/src/codec/edo9300_ocgcore_encode.cpp
index c32e1cd..55c6305 100644
--- a/src/codec/edo9300_ocgcore_encode.cpp
+++ b/src/codec/edo9300_ocgcore_encode.cpp
@@ -889,18 +889,13 @@ auto encode_one(google::protobuf::Arena& arena, IEncodeContext& context,
 					if(read<uint8_t>(data, "has card") == 0U)
 						continue;
 					skip<CSPos>(data, "position (current)");
-					if(loc == LOCATION_SPELL_ZONE)
-					{
-						auto const [f_loc, f_seq] = fix_spell_loc_seq(loc, seq);
-						add_one(f_loc, f_seq, OSEQ_INVALID);
-					}
-					else
-					{
-						add_one(loc, seq, OSEQ_INVALID);
-					}
+					auto const f_loc_seq = fix_spell_loc_seq(loc, seq);
+					auto const f_loc = f_loc_seq.first;
+					auto const f_seq = f_loc_seq.second;
+					add_one(f_loc, f_seq, OSEQ_INVALID);
 					auto const mats = read<CCount>(data, "xyz mats count");
 					for(CCount oseq = 0U; oseq < mats; oseq++)
-						add_one(loc, seq, static_cast<COSeq>(oseq));
+						add_one(f_loc, f_seq, static_cast<COSeq>(oseq));
 				}
 			};
 			auto add_pile = [&](Location loc, CCount count)
-- 
2.43.0


From a995728d024e327a68331749daaf38df1b8ac865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:59 +0000
Subject: [PATCH 07/15] fix: field and pendulum zones in SelectZone answers
 were not mapped back

---
 src/codec/edo9300_ocgcore_decode.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/codec/edo9300_ocgcore_decode.cpp b/src/codec/edo9300_ocgcore_decode.cpp
index 1270796..03b81be 100644
--- a/src/codec/edo9300_ocgcore_decode.cpp
+++ b/src/codec/edo9300_ocgcore_decode.cpp
@@ -6,6 +6,7 @@
 #include "ygopen/codec/edo9300_ocgcore_decode.hpp"
 
 #include <cstring>
+#include <ygopen/duel/constants/location.hpp>
 #include <ygopen/duel/constants/phase.hpp>
 #include <ygopen/proto/duel/answer.hpp>
 #include <ygopen/proto/duel/msg.hpp>
@@ -217,9 +218,23 @@ auto decode_one_answer(Proto::Duel::Msg::Request const& request,
 		auto* ptr = out.data();
 		for(auto const& p : places)
 		{
+			using namespace YGOpen::Duel;
+			auto loc = p.loc();
+			auto seq = p.seq();
+			// The core sees these as part of the Spell & Trap Zones.
+			if(loc == LOCATION_FIELD_ZONE)
+			{
+				loc = LOCATION_SPELL_ZONE;
+				seq += 5U;
+			}
+			else if(loc == LOCATION_PENDULUM_ZONE)
+			{
+				loc = LOCATION_SPELL_ZONE;
+				seq += 6U;
+			}
 			write(ptr, static_cast<int8_t>(p.con()));
-			write(ptr, static_cast<int8_t>(p.loc()));
-			write(ptr, static_cast<int8_t>(p.seq()));
+			write(ptr, static_cast<int8_t>(loc));
+			write(ptr, static_cast<int8_t>(seq));
 		}
 		break;
 	}
-- 
2.43.0


From 944f3c47581a0d736d76845fc92b7248ad8a5d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:59 +0000
Subject: [PATCH 08/15] fix: BasicEncodeContext left the match win reason
 uninitialised

---
 include/ygopen/server/basic_encode_context.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ygopen/server/basic_encode_context.hpp b/include/ygopen/server/basic_encode_context.hpp
index dedac39..cff9f9a 100644
--- a/include/ygopen/server/basic_encode_context.hpp
+++ b/include/ygopen/server/basic_encode_context.hpp
@@ -99,7 +99,7 @@ private:
 
 	BoardType board_;
 
-	uint32_t match_win_reason_;
+	uint32_t match_win_reason_{};
 	std::map<Place, Place, YGOpen::Proto::Duel::PlaceLess> left_;
 	std::vector<Place> deferred_;
 };
-- 
2.43.0


From a6f2deba837ab2f9eb4ebaadd2ab012abbcb913c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:59 +0000
Subject: [PATCH 09/15] fix: rooms accepted first turn decide methods that do
 not exist

---
 include/ygopen/server/room.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ygopen/server/room.hpp b/include/ygopen/server/room.hpp
index 3ff9b23..2ce5b57 100644
--- a/include/ygopen/server/room.hpp
+++ b/include/ygopen/server/room.hpp
@@ -223,6 +223,8 @@ private:
 		for(auto& v : max_duelists)
 			v = std::clamp<uint32_t>(v, 1, std::tuple_size_v<Team>);
 		// NOTE: FirstTurnDecideMethod defaults to 0 (FTDM_HOST_CHOOSES).
+		if(!YGOpen::Proto::Room::FirstTurnDecideMethod_IsValid(options_.ftdm()))
+			options_.clear_ftdm();
 	}
 
 	template<typename T, typename... Args>
-- 
2.43.0


From b00e23bfa48b8d8a8b91c3fef82a7c570b852bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:51 +0000
Subject: [PATCH 10/15] fix: materials were misordered when ranking up into the
 zone of the old card

While the materials of a card are attached one by one, those still left in
the zone being moved to are found after the ones already attached there.
---
 src/codec/edo9300_ocgcore_encode.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/codec/edo9300_ocgcore_encode.cpp b/src/codec/edo9300_ocgcore_encode.cpp
index 55c6305..13109ea 100644
--- a/src/codec/edo9300_ocgcore_encode.cpp
+++ b/src/codec/edo9300_ocgcore_encode.cpp
@@ -1427,14 +1427,21 @@ auto encode_one(google::protobuf::Arena& arena, IEncodeContext& context,
 			for(auto const& def : context.take_deferred_xyz_mat())
 			{
 				auto const oseq = i++;
-				// Skip no-ops.
+				auto from = def;
+				// Materials that were in the zone being moved to come after
+				// the ones that have been attached up to this point.
 				if(def.con() == curr.con() && def.loc() == curr.loc() &&
-				   def.seq() == curr.seq() && def.oseq() == oseq)
-					continue;
+				   def.seq() == curr.seq() && def.oseq() >= 0)
+				{
+					// Skip no-ops.
+					if(def.oseq() == 0)
+						continue;
+					from.set_oseq(def.oseq() + oseq);
+				}
 				auto* op = card->mutable_move()->add_ops();
 				auto* old_place = op->mutable_old_place();
 				auto* new_place = op->mutable_new_place();
-				*old_place = def;
+				*old_place = from;
 				*new_place = curr;
 				new_place->set_oseq(oseq);
 			}
-- 
2.43.0


From abdd3e91f515728022c4db9d80f0562ec6cedd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:32 +0000
Subject: [PATCH 11/15] fix: zones at unknown locations were looked up without
 an assertion

zone_seq_lim assumes that the location is one of a zone, so checking it
later than that is undefined behavior instead of a failed assertion.
---
 include/ygopen/client/frame.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ygopen/client/frame.hpp b/include/ygopen/client/frame.hpp
index bcbfaff..e771afa 100644
--- a/include/ygopen/client/frame.hpp
+++ b/include/ygopen/client/frame.hpp
@@ -649,6 +649,7 @@ private:
 	                            uint32_t seq) noexcept -> auto&
 	{
 		assert(con <= 1);
+		assert(is_zone(loc));
 		assert(seq < zone_seq_lim(loc));
 		return ((t.field_[con])[loc])[seq];
 	}
-- 
2.43.0


From d2cf492793c7d371251d6375130fa4c74f5c86d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:57 +0000
Subject: [PATCH 12/15] fix: empty selections of recursive card requests read
 past the indexes

Without assertions, answering a recursive SelectCard request with an empty
list of indexes dereferenced the first element of the empty list.
---
 src/codec/edo9300_ocgcore_decode.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/codec/edo9300_ocgcore_decode.cpp b/src/codec/edo9300_ocgcore_decode.cpp
index 03b81be..391fb8e 100644
--- a/src/codec/edo9300_ocgcore_decode.cpp
+++ b/src/codec/edo9300_ocgcore_decode.cpp
@@ -67,6 +67,8 @@ auto decode_one_answer(Proto::Duel::Msg::Request const& request,
 			}();
 			if(is_select_unselect)
 			{
+				if(indexes.empty())
+					break; // Nothing was selected, there's no first index.
 				out.resize(sizeof(int32_t) * 2U);
 				auto* ptr = out.data();
 				write<int32_t>(ptr, 1);
-- 
2.43.0


From 97a7e952ab843a31fe8c6851987ba2807112b809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:47 +0000
Subject: [PATCH 13/15] fix: BasicBoard::lp did not check the controller when
 const

---
 include/ygopen/client/board.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ygopen/client/board.hpp b/include/ygopen/client/board.hpp
index 36bcf21..155efab 100644
--- a/include/ygopen/client/board.hpp
+++ b/include/ygopen/client/board.hpp
@@ -75,7 +75,9 @@ public:
 	[[nodiscard]] constexpr auto lp(YGOpen::Duel::Controller con) const noexcept
 		-> LPType const&
 	{
-		return lp_[static_cast<size_t>(con)];
+		auto const who = static_cast<size_t>(con);
+		assert(who < lp_.size());
+		return lp_[who];
 	}
 
 	[[nodiscard]] constexpr auto phase() const noexcept -> PhaseType const&
-- 
2.43.0


From 18badd2465b4895f988bd79841d64cea962227e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 14/15] fix: MSG_FIELD_DISABLED blocked the zones that are not
 disabled

The core sets the bits of the disabled zones, unlike in the masks of zone
selections, where the bits of the zones that cannot be selected are set.
---
 src/codec/edo9300_ocgcore_encode.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/codec/edo9300_ocgcore_encode.cpp b/src/codec/edo9300_ocgcore_encode.cpp
index 13109ea..8988673 100644
--- a/src/codec/edo9300_ocgcore_encode.cpp
+++ b/src/codec/edo9300_ocgcore_encode.cpp
@@ -642,8 +642,9 @@ auto encode_one(google::protobuf::Arena& arena, IEncodeContext& context,
 	}
 	case MSG_FIELD_DISABLED:
 	{
+		// NOTE: Here a set bit is a disabled zone, unlike in the selections.
 		auto* zone_block = create_event()->mutable_zone_block();
-		unpack_zones(read<CField>(data, "zones"), 0U,
+		unpack_zones(~read<CField>(data, "zones"), 0U,
 		             [&]() { return zone_block->add_zones(); });
 		break;
 	}
-- 
2.43.0


From 2287ffa27636292ac9f44c029edfe1915d9885a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 15/15] fix: race answers were truncated to 32 bits

Races are 64-bit sets; the request and the answer already are.
---
 src/codec/edo9300_ocgcore_decode.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/codec/edo9300_ocgcore_decode.cpp b/src/codec/edo9300_ocgcore_decode.cpp
index 391fb8e..d054ec6 100644
--- a/src/codec/edo9300_ocgcore_decode.cpp
+++ b/src/codec/edo9300_ocgcore_decode.cpp
@@ -179,7 +179,10 @@ auto decode_one_answer(Proto::Duel::Msg::Request const& request,
 	}
 	case Answer::kSelectRace:
 	{
-		response_i(answer.select_race());
+		// NOTE: Races are the only values the core reads as 64-bit integers.
+		out.resize(sizeof(uint64_t));
+		auto* ptr = out.data();
+		write(ptr, static_cast<uint64_t>(answer.select_race()));
 		break;
 	}
 	case Answer::kSelectRockPaperScissors:
-- 
2.43.0

