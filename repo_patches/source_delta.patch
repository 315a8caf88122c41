From e68d941ff8e2b01b40d1725267ea22bb8cfbbf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:48 +0000
Subject: [PATCH 01/18] fix: let a new ATerm/STerm restart the sentence
 terminator sequence

After Close or Sp (levels 2 and 3) another ATerm or STerm reset the
sequence level to 0 instead of 1, so no break was found after texts like
"a.) b! C" or "(etc.). Next" (SB8 to SB11).
---
 src/sentence.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/sentence.c b/src/sentence.c
index 291c7f4..c6161d8 100644
--- a/src/sentence.c
+++ b/src/sentence.c
@@ -67,10 +67,8 @@ sentence_skip_shift_callback(uint_least8_t prop, void *s)
 	 *     left of the middle spot.
 	 *
 	 */
-	if ((state->aterm_close_sp_level == 0 ||
-	     state->aterm_close_sp_level == 1) &&
-	    prop == SENTENCE_BREAK_PROP_ATERM) {
-		/* sequence has begun */
+	if (prop == SENTENCE_BREAK_PROP_ATERM) {
+		/* sequence has begun (anew) */
 		state->aterm_close_sp_level = 1;
 	} else if ((state->aterm_close_sp_level == 1 ||
 	            state->aterm_close_sp_level == 2) &&
@@ -88,11 +86,9 @@ sentence_skip_shift_callback(uint_least8_t prop, void *s)
 		state->aterm_close_sp_level = 0;
 	}
 
-	if ((state->saterm_close_sp_parasep_level == 0 ||
-	     state->saterm_close_sp_parasep_level == 1) &&
-	    (prop == SENTENCE_BREAK_PROP_STERM ||
-	     prop == SENTENCE_BREAK_PROP_ATERM)) {
-		/* sequence has begun */
+	if (prop == SENTENCE_BREAK_PROP_STERM ||
+	    prop == SENTENCE_BREAK_PROP_ATERM) {
+		/* sequence has begun (anew) */
 		state->saterm_close_sp_parasep_level = 1;
 	} else if ((state->saterm_close_sp_parasep_level == 1 ||
 	            state->saterm_close_sp_parasep_level == 2) &&
-- 
2.43.0


From 03068420e40f17c474be1cdd56cab9934e6dcf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 02/18] fix: let a number start after a closed number in LB25

A NU following NU (NU | SY | IS)* (CL | CP) reset the sequence level to 0
instead of beginning a new sequence, so "1)2%" was broken before the
percent sign.
---
 src/line.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/line.c b/src/line.c
index 5355143..aac861e 100644
--- a/src/line.c
+++ b/src/line.c
@@ -113,7 +113,8 @@ next_line_break(HERODOTUS_READER *r)
 			 *     and one (CL | CP) to the left of the middle
 			 *     spot
 			 */
-			if ((lb25_level == 0 || lb25_level == 1) &&
+			if ((lb25_level == 0 || lb25_level == 1 ||
+			     lb25_level == 3) &&
 			    cp0_prop == LINE_BREAK_PROP_NU) {
 				/* sequence has begun */
 				lb25_level = 1;
-- 
2.43.0


From 0cfb503d3e6bcea4e72c1b054c365418aaf58305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:59 +0000
Subject: [PATCH 03/18] fix: skip combining marks in the lookahead of LB25

(PR | PO) x (OP | HY) NU looked at the very next codepoint instead of
skipping the CM and ZWJ that LB9 attaches to the OP or HY.
---
 src/line.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/line.c b/src/line.c
index aac861e..5ec47c2 100644
--- a/src/line.c
+++ b/src/line.c
@@ -22,7 +22,7 @@ static size_t
 next_line_break(HERODOTUS_READER *r)
 {
 	HERODOTUS_READER tmp;
-	enum line_break_property cp0_prop, cp1_prop, last_non_cm_or_zwj_prop,
+	enum line_break_property cp0_prop, cp1_prop, cp2_prop, last_non_cm_or_zwj_prop,
 		last_non_sp_prop, last_non_sp_cm_or_zwj_prop;
 	uint_least32_t cp;
 	uint_least8_t lb25_level = 0;
@@ -370,14 +370,23 @@ next_line_break(HERODOTUS_READER *r)
 			 * two adjacent codepoints as we have it with
 			 * characters.
 			 */
-			herodotus_reader_copy(r, &tmp);
-			herodotus_read_codepoint(&tmp, true, &cp);
-			if (herodotus_read_codepoint(&tmp, true, &cp) ==
-			            HERODOTUS_STATUS_SUCCESS &&
-			    (cp1_prop == LINE_BREAK_PROP_OP_WITHOUT_EAW_HWF ||
-			     cp1_prop == LINE_BREAK_PROP_OP_WITH_EAW_HWF ||
-			     cp1_prop == LINE_BREAK_PROP_HY)) {
-				if (get_break_prop(cp) == LINE_BREAK_PROP_NU) {
+			if (cp1_prop == LINE_BREAK_PROP_OP_WITHOUT_EAW_HWF ||
+			    cp1_prop == LINE_BREAK_PROP_OP_WITH_EAW_HWF ||
+			    cp1_prop == LINE_BREAK_PROP_HY) {
+				/* skip what LB9 attaches to OP or HY */
+				herodotus_reader_copy(r, &tmp);
+				herodotus_read_codepoint(&tmp, true, &cp);
+				for (cp2_prop = NUM_LINE_BREAK_PROPS;
+				     herodotus_read_codepoint(&tmp, true,
+				                              &cp) ==
+				     HERODOTUS_STATUS_SUCCESS;) {
+					cp2_prop = get_break_prop(cp);
+					if (cp2_prop != LINE_BREAK_PROP_CM &&
+					    cp2_prop != LINE_BREAK_PROP_ZWJ) {
+						break;
+					}
+				}
+				if (cp2_prop == LINE_BREAK_PROP_NU) {
 					continue;
 				}
 			}
-- 
2.43.0


From 770dd8ac2d00113433a9a40fd8a246fb3ddcbb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:05 +0000
Subject: [PATCH 04/18] fix: treat a combining mark after a space as AL in line
 breaking

LB10 makes any CM or ZWJ that LB9 cannot attach to a character an AL.
After a space it was skipped instead, so the spaces before it still took
part in the rules and e.g. the break after "( " + U+0301 was suppressed
until the end of the text.
---
 src/line.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/line.c b/src/line.c
index 5ec47c2..ad8c638 100644
--- a/src/line.c
+++ b/src/line.c
@@ -58,8 +58,19 @@ next_line_break(HERODOTUS_READER *r)
 		 * store the last observed non-CM-or-ZWJ-property for
 		 * LB9 and following.
 		 */
-		if (cp0_prop != LINE_BREAK_PROP_CM &&
-		    cp0_prop != LINE_BREAK_PROP_ZWJ) {
+		if ((cp0_prop == LINE_BREAK_PROP_CM ||
+		     cp0_prop == LINE_BREAK_PROP_ZWJ) &&
+		    last_non_cm_or_zwj_prop == LINE_BREAK_PROP_SP) {
+			/*
+			 * LB10: nothing to attach to, so this is an AL that
+			 * ends the preceding sequences
+			 */
+			lb21a_flag = false;
+			ri_even = true;
+			lb25_level = 0;
+			last_non_cm_or_zwj_prop = LINE_BREAK_PROP_AL;
+		} else if (cp0_prop != LINE_BREAK_PROP_CM &&
+		           cp0_prop != LINE_BREAK_PROP_ZWJ) {
 			/*
 			 * check if the property we are overwriting now is an
 			 * HL. If so, we set the LB21a-flag which depends on
-- 
2.43.0


From f5aec3bbb4ae8be121ee9b70790b35ba21fa01ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 05/18] fix: apply LB23a to unassigned extended pictographics

All of them have the line breaking class ID, but their separate internal
class was left out of PR x ID and ID x PO.
---
 src/line.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/line.c b/src/line.c
index ad8c638..47616e7 100644
--- a/src/line.c
+++ b/src/line.c
@@ -344,11 +344,14 @@ next_line_break(HERODOTUS_READER *r)
 		/* LB23a */
 		if (last_non_cm_or_zwj_prop == LINE_BREAK_PROP_PR &&
 		    (cp1_prop == LINE_BREAK_PROP_ID ||
+		     cp1_prop == LINE_BREAK_PROP_BOTH_CN_EXTPICT ||
 		     cp1_prop == LINE_BREAK_PROP_EB ||
 		     cp1_prop == LINE_BREAK_PROP_EM)) {
 			continue;
 		}
 		if ((last_non_cm_or_zwj_prop == LINE_BREAK_PROP_ID ||
+		     last_non_cm_or_zwj_prop ==
+		             LINE_BREAK_PROP_BOTH_CN_EXTPICT ||
 		     last_non_cm_or_zwj_prop == LINE_BREAK_PROP_EB ||
 		     last_non_cm_or_zwj_prop == LINE_BREAK_PROP_EM) &&
 		    cp1_prop == LINE_BREAK_PROP_PO) {
-- 
2.43.0


From 6298188848dd38b2436b19e83beb16f1d7875d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:20 +0000
Subject: [PATCH 06/18] fix: assign the line breaking classes of SA marks and
 unassigned ID and PR

The table generator assigns the first matching class. SA codepoints with
General_Category Mn or Mc matched the temporary classes for Mn and Mc and
ended up as AL instead of CM (LB1), and unassigned codepoints listed with
the classes ID and PR matched the temporary class for Cn and ended up as AL
unless they are pictographic.
---
 gen/line.c | 43 ++++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/gen/line.c b/gen/line.c
index 2e08acc..39290c2 100644
--- a/gen/line.c
+++ b/gen/line.c
@@ -22,14 +22,21 @@ static const struct property_spec line_break_property[] = {
 	 * the extpict-class is filled, then the cn-class, which leads
 	 * to conflicts (that we handle by putting them in the "proper"
 	 * class BOTH_CN_EXTPICT). We make use of the fact that there
-	 * is no intersection between AL and Cn.
+	 * is no intersection between AL and Cn. Only the classes PR and ID
+	 * are also assigned to unassigned codepoints. PR thus comes first,
+	 * and what remains in TMP_CN is ID.
 	 *
 	 * Any consecutive conflicts are permitted to overwrite
 	 * TMP_EXTENDED_PICTOGRAPHIC and TMP_CN, because we don't need
 	 * them, and in the final postprocessing we "reset" all
 	 * remaining matches (that then didn't fit any of the other
-	 * classes) to the generic class AL.
+	 * classes) to the class ID and the generic class AL respectively.
 	 */
+	{
+		.enumname = "PR",
+		.file = FILE_LINE,
+		.ucdname = "PR",
+	},
 	{
 		.enumname = "TMP_CN",
 		.file = FILE_LINE,
@@ -201,11 +208,6 @@ static const struct property_spec line_break_property[] = {
 		.file = FILE_LINE,
 		.ucdname = "PO",
 	},
-	{
-		.enumname = "PR",
-		.file = FILE_LINE,
-		.ucdname = "PR",
-	},
 	{
 		.enumname = "QU",
 		.file = FILE_LINE,
@@ -435,6 +437,27 @@ post_process(struct properties *prop)
 		                   "TMP_SA_WITH_MN_OR_MC")) {
 			/* map SA (with General_Category Mn or Mc) to CM */
 			target = "CM";
+		} else if (!strcmp(line_break_property[prop[i].property]
+		                           .enumname,
+		                   "TMP_MN") ||
+		           !strcmp(line_break_property[prop[i].property]
+		                           .enumname,
+		                   "TMP_MC")) {
+			/*
+			 * all classes with members in Mn and Mc precede these
+			 * two in the specification except SA, so what is left
+			 * in them is SA (with General_Category Mn or Mc), which
+			 * is mapped to CM
+			 */
+			target = "CM";
+		} else if (!strcmp(line_break_property[prop[i].property]
+		                           .enumname,
+		                   "TMP_CN")) {
+			/*
+			 * all classes with members in Cn precede it in the
+			 * specification except ID
+			 */
+			target = "ID";
 		} else if (!strcmp(line_break_property[prop[i].property]
 		                           .enumname,
 		                   "TMP_SA_WITHOUT_MN_OR_MC")) {
@@ -446,14 +469,8 @@ post_process(struct properties *prop)
 			/* map CJ to NS */
 			target = "NS";
 		} else if (
-			!strcmp(line_break_property[prop[i].property].enumname,
-		                "TMP_CN") ||
 			!strcmp(line_break_property[prop[i].property].enumname,
 		                "TMP_EXTENDED_PICTOGRAPHIC") ||
-			!strcmp(line_break_property[prop[i].property].enumname,
-		                "TMP_MN") ||
-			!strcmp(line_break_property[prop[i].property].enumname,
-		                "TMP_MC") ||
 			!strcmp(line_break_property[prop[i].property].enumname,
 		                "TMP_EAW_H") ||
 			!strcmp(line_break_property[prop[i].property].enumname,
-- 
2.43.0


From 9b7b9684e6f02371c9ecc1e6f1222bdfb0078a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:03 +0000
Subject: [PATCH 07/18] fix: do not cut off malformed UTF-8 at the end of a
 word

The titlecase functions limit the reader to a word. As the decoder was also
given that limit, a malformed sequence at the end of a word that announced
more bytes than were left in it was taken for a truncated one, which ended
the input: grapheme_to_titlecase_utf8("\xE2" "A") yielded "".
---
 src/util.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/util.c b/src/util.c
index 4d9a8a4..8895836 100644
--- a/src/util.c
+++ b/src/util.c
@@ -116,9 +116,9 @@ herodotus_reader_next_codepoint_break(const HERODOTUS_READER *r)
 	if (r->type == HERODOTUS_TYPE_CODEPOINT) {
 		return (r->off < MIN(r->srclen, r->soft_limit[0])) ? 1 : 0;
 	} else { /* r->type == HERODOTUS_TYPE_UTF8 */
-		return grapheme_decode_utf8(
-			(const char *)(r->src) + r->off,
-			MIN(r->srclen, r->soft_limit[0]) - r->off, NULL);
+		/* see herodotus_read_codepoint() for the length */
+		return grapheme_decode_utf8((const char *)(r->src) + r->off,
+		                            r->srclen - r->off, NULL);
 	}
 }
 
@@ -147,9 +147,13 @@ herodotus_read_codepoint(HERODOTUS_READER *r, bool advance, uint_least32_t *cp)
 		*cp = ((const uint_least32_t *)(r->src))[r->off];
 		ret = 1;
 	} else { /* r->type == HERODOTUS_TYPE_UTF8 */
-		ret = grapheme_decode_utf8(
-			(const char *)r->src + r->off,
-			MIN(r->srclen, r->soft_limit[0]) - r->off, cp);
+		/*
+		 * The decoding must not depend on the soft limit, because a
+		 * malformed sequence right before it would otherwise be
+		 * considered to be cut off by it. It is checked below.
+		 */
+		ret = grapheme_decode_utf8((const char *)r->src + r->off,
+		                           r->srclen - r->off, cp);
 	}
 
 	if (unlikely(r->srclen == SIZE_MAX && *cp == 0)) {
-- 
2.43.0


From c34174aee935c7a6f8b5bb92d0018a25c5b1fa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:09 +0000
Subject: [PATCH 08/18] fix: keep the Final_Sigma state at a cased letter after
 case-ignorables

A cased letter after 'cased case-ignorable+' reset the state instead of
starting the sequence anew, so the final sigma of e.g. "D'OS" in Greek
letters (with apostrophe) was not recognized.
---
 src/case.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/case.c b/src/case.c
index 6fac8ec..72eb7a2 100644
--- a/src/case.c
+++ b/src/case.c
@@ -110,11 +110,9 @@ to_case(HERODOTUS_READER *r, HERODOTUS_WRITER *w,
 
 			/* update state */
 			prop = get_case_property(cp);
-			if ((final_sigma_level == 0 ||
-			     final_sigma_level == 1) &&
-			    (prop == CASE_PROP_CASED ||
-			     prop == CASE_PROP_BOTH_CASED_CASE_IGNORABLE)) {
-				/* sequence has begun */
+			if (prop == CASE_PROP_CASED ||
+			    prop == CASE_PROP_BOTH_CASED_CASE_IGNORABLE) {
+				/* sequence has begun (anew) */
 				final_sigma_level = 1;
 			} else if (
 				(final_sigma_level == 1 ||
-- 
2.43.0


From 5298194b4ea3e571ccf9017c96cf46ef6d06ee65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:26 +0000
Subject: [PATCH 09/18] fix: take case-ignorable cased characters after a sigma
 for cased

The after-condition of Final_Sigma is not((case-ignorable)* cased). A
character that is both, like U+0345 or U+02B0, was only skipped as
case-ignorable, so the sigma before it could become final.
---
 src/case.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/case.c b/src/case.c
index 72eb7a2..c774739 100644
--- a/src/case.c
+++ b/src/case.c
@@ -70,7 +70,8 @@ to_case(HERODOTUS_READER *r, HERODOTUS_WRITER *w,
 				 * check succeeding characters by first skipping
 				 * all case-ignorable characters and then
 				 * checking if the succeeding character is
-				 * cased, invalidating the after-condition
+				 * cased, invalidating the after-condition. A
+				 * character that is both satisfies the latter.
 				 */
 				herodotus_reader_copy(r, &tmp);
 				for (prop = NUM_CASE_PROPS;
@@ -79,14 +80,13 @@ to_case(HERODOTUS_READER *r, HERODOTUS_WRITER *w,
 				     HERODOTUS_STATUS_SUCCESS;) {
 					prop = get_case_property(tmp_cp);
 
-					if (prop != CASE_PROP_CASE_IGNORABLE &&
-					    prop != CASE_PROP_BOTH_CASED_CASE_IGNORABLE) {
+					if (prop != CASE_PROP_CASE_IGNORABLE) {
 						break;
 					}
 				}
 
 				/*
-				 * Now prop is something other than
+				 * Now prop is something other than (only)
 				 * case-ignorable or the source-string ended. If
 				 * it is something other than cased, we know
 				 * that the after-condition holds
-- 
2.43.0


From ca8e8b216033cb4a62559ff6d9bd4356e77347e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:27 +0000
Subject: [PATCH 10/18] fix: do not break regional indicator pairs without a
 state

grapheme_is_character_break() is documented to behave with a NULL state as
with a fully reset one, but two regional indicators were separated.
---
 src/character.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/character.c b/src/character.c
index aedcf9e..e87251f 100644
--- a/src/character.c
+++ b/src/character.c
@@ -199,13 +199,15 @@ grapheme_is_character_break(uint_least32_t cp0, uint_least32_t cp1,
 		 * Apply grapheme cluster breaking algorithm (UAX #29), see
 		 * http://unicode.org/reports/tr29/#Grapheme_Cluster_Boundary_Rules
 		 *
-		 * Given we have no state, this behaves as if the state-booleans
-		 * were all set to false
+		 * Given we have no state, this behaves as if the state was
+		 * fully reset before the call. The GB11-flag then can't be
+		 * set, and the GB12/13-flag is set by two regional indicators.
 		 */
 		notbreak = (dont_break[cp0_prop] & (UINT16_C(1) << cp1_prop)) ||
 		           (dont_break_gb11[cp0_prop] &
 		            (UINT16_C(1) << cp1_prop)) ||
-		           (dont_break_gb12_13[cp0_prop] &
+		           (dont_break_gb12_13[cp0_prop +
+		                               NUM_CHAR_BREAK_PROPS] &
 		            (UINT16_C(1) << cp1_prop));
 	}
 
-- 
2.43.0


From 8e777abd66f63ea133e276f4ce3eee9e212b251a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:51 +0000
Subject: [PATCH 11/18] fix: determine the paragraph level from the first
 paragraph only

---
 src/bidirectional.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index 4e81df1..b810f51 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -974,6 +974,11 @@ get_paragraph_level(enum grapheme_bidirectional_direction override,
 	                        HERODOTUS_STATUS_SUCCESS;) {
 		prop = get_bidi_property(cp);
 
+		/* P1, the paragraph ends with its separator */
+		if (prop == BIDI_PROP_B) {
+			break;
+		}
+
 		/* BD8/BD9 */
 		if ((prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
 		     prop == BIDI_PROP_FSI) &&
-- 
2.43.0


From 070438b848fb7bcdf7b2cd5bc0c6ab7f9b684fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:13 +0000
Subject: [PATCH 12/18] fix: match isolate initiators and PDIs regardless of
 the depth limit

---
 src/bidirectional.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index b810f51..c7aaefa 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -898,8 +898,7 @@ static uint_least8_t
 get_isolated_paragraph_level(const uint_least32_t *state, size_t statelen)
 {
 	enum bidi_property prop;
-	int_least8_t isolate_level;
-	size_t stateoff;
+	size_t isolate_level, stateoff;
 
 	/* determine paragraph level (rules P1-P3) and terminate on PDI */
 	for (stateoff = 0, isolate_level = 0; stateoff < statelen; stateoff++) {
@@ -914,9 +913,8 @@ get_isolated_paragraph_level(const uint_least32_t *state, size_t statelen)
 		}
 
 		/* BD8/BD9 */
-		if ((prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
-		     prop == BIDI_PROP_FSI) &&
-		    isolate_level < MAX_DEPTH) {
+		if (prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
+		    prop == BIDI_PROP_FSI) {
 			/* we hit an isolate initiator, increment counter */
 			isolate_level++;
 		} else if (prop == BIDI_PROP_PDI && isolate_level > 0) {
@@ -956,7 +954,7 @@ get_paragraph_level(enum grapheme_bidirectional_direction override,
 {
 	HERODOTUS_READER tmp;
 	enum bidi_property prop;
-	int_least8_t isolate_level;
+	size_t isolate_level;
 	uint_least32_t cp;
 
 	/* check overrides first according to rule HL1 */
@@ -980,9 +978,8 @@ get_paragraph_level(enum grapheme_bidirectional_direction override,
 		}
 
 		/* BD8/BD9 */
-		if ((prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
-		     prop == BIDI_PROP_FSI) &&
-		    isolate_level < MAX_DEPTH) {
+		if (prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
+		    prop == BIDI_PROP_FSI) {
 			/* we hit an isolate initiator, increment counter */
 			isolate_level++;
 		} else if (prop == BIDI_PROP_PDI && isolate_level > 0) {
-- 
2.43.0


From 03802909ef68976796c68469b59e54f70173af92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:59 +0000
Subject: [PATCH 13/18] fix: determine isolating run sequences by BD13

---
 src/bidirectional.c | 121 ++++++++++++++++----------------------------
 1 file changed, 44 insertions(+), 77 deletions(-)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index c7aaefa..2a53d03 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -225,8 +225,8 @@ static int
 ir_advance(struct isolate_runner *ir)
 {
 	enum bidi_property prop;
-	int_least8_t level, isolate_level, last_isolate_level;
-	size_t i;
+	int_least8_t level;
+	size_t i, isolate_level;
 
 	if (ir->next.off == SIZE_MAX) {
 		/* the sequence is over */
@@ -240,92 +240,59 @@ ir_advance(struct isolate_runner *ir)
 	/* mark as visited */
 	set_state(STATE_VISITED, 1, &(ir->buf[ir->cur.off]));
 
-	/* initialize next state by going to the next character in the sequence
-	 */
+	/* go to the next character that was not removed in X9 */
 	ir->next.off = SIZE_MAX;
-
-	last_isolate_level = -1;
-	for (i = ir->cur.off, isolate_level = 0; i < ir->buflen; i++) {
+	for (i = ir->cur.off + 1, level = -1; i < ir->buflen; i++) {
 		level = (int_least8_t)get_state(STATE_LEVEL, ir->buf[i]);
-		prop = (uint_least8_t)get_state(STATE_PROP, ir->buf[i]);
 
-		if (level == -1) {
-			/* this is one of the ignored characters, skip */
-			continue;
-		} else if (level == ir->isolating_run_level) {
-			last_isolate_level = level;
+		if (level != -1) {
+			break;
 		}
+	}
 
-		/* follow BD8/BD9 and P2 to traverse the current sequence */
-		if (prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
-		    prop == BIDI_PROP_FSI) {
-			/*
-			 * we encountered an isolate initiator, increment
-			 * counter, but go into processing when we
-			 * were not isolated before
-			 */
-			if (isolate_level < MAX_DEPTH) {
-				isolate_level++;
-			}
-			if (isolate_level != 1) {
-				continue;
-			}
-		} else if (prop == BIDI_PROP_PDI && isolate_level > 0) {
-			isolate_level--;
+	if (i < ir->buflen && level == ir->isolating_run_level) {
+		/* the level run continues */
+		ir->next.off = i;
+		return 0;
+	}
 
-			/*
-			 * if the current PDI dropped the isolate-level
-			 * to zero, it is itself part of the isolating
-			 * run sequence; otherwise we simply continue.
-			 */
-			if (isolate_level > 0) {
-				continue;
-			}
-		} else if (isolate_level > 0) {
-			/* we are in an isolating sequence */
-			continue;
-		}
+	/*
+	 * the level run is over; by BD13, if it ends with an isolate
+	 * initiator, the sequence continues at the matching PDI (BD9)
+	 */
+	prop = ir_get_current_preserved_prop(ir);
+	if (prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
+	    prop == BIDI_PROP_FSI) {
+		for (i = ir->cur.off + 1, isolate_level = 1; i < ir->buflen;
+		     i++) {
+			prop = (uint_least8_t)get_state(STATE_PRESERVED_PROP,
+			                                ir->buf[i]);
 
-		/*
-		 * now we either still are in our sequence or we hit
-		 * the eos-case as we left the sequence and hit the
-		 * first non-isolating-sequence character.
-		 */
-		if (i == ir->cur.off) {
-			/* we were in the first initializing round */
-			continue;
-		} else if (level == ir->isolating_run_level) {
-			/* isolate_level-skips have been handled before, we're
-			 * good */
-			/* still in the sequence */
-			ir->next.off = i;
-		} else {
-			/* out of sequence or isolated, compare levels via eos
-			 */
-			ir->next.off = SIZE_MAX;
-			if (MAX(last_isolate_level, level) % 2 == 0) {
-				ir->eos = BIDI_PROP_L;
-			} else {
-				ir->eos = BIDI_PROP_R;
+			if (prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
+			    prop == BIDI_PROP_FSI) {
+				isolate_level++;
+			} else if (prop == BIDI_PROP_PDI &&
+			           --isolate_level == 0) {
+				ir->next.off = i;
+				return 0;
 			}
 		}
-		break;
 	}
+
+	/*
+	 * the sequence is over; compare its level with the level of the
+	 * following character or, if there is none or the sequence ends
+	 * with an isolate initiator, with the paragraph level (X10)
+	 */
 	if (i == ir->buflen) {
-		/*
-		 * the sequence ended before we could grab an offset.
-		 * we need to determine the eos-prop by comparing the
-		 * level of the last element in the isolating run sequence
-		 * with the paragraph level.
-		 */
-		ir->next.off = SIZE_MAX;
-		if (MAX(last_isolate_level, ir->paragraph_level) % 2 == 0) {
-			/* the higher level is even, set eos to L */
-			ir->eos = BIDI_PROP_L;
-		} else {
-			/* the higher level is odd, set eos to R */
-			ir->eos = BIDI_PROP_R;
-		}
+		level = (int_least8_t)ir->paragraph_level;
+	}
+	if (MAX(ir->isolating_run_level, level) % 2 == 0) {
+		/* the higher level is even, set eos to L */
+		ir->eos = BIDI_PROP_L;
+	} else {
+		/* the higher level is odd, set eos to R */
+		ir->eos = BIDI_PROP_R;
 	}
 
 	return 0;
-- 
2.43.0


From ca8ab919315a63ff9467ffd3a8fa9e4aab101286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:47 +0000
Subject: [PATCH 14/18] fix: only identify canonically equivalent brackets

---
 gen/bidirectional.c | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/gen/bidirectional.c b/gen/bidirectional.c
index b4a4fb7..4eae79f 100644
--- a/gen/bidirectional.c
+++ b/gen/bidirectional.c
@@ -143,7 +143,6 @@ static int
 decomposition_callback(const char *file, char **field, size_t nfields,
                        char *comment, void *payload)
 {
-	char *p;
 	struct decomposition_payload *decomp =
 		(struct decomposition_payload *)payload;
 	uint_least32_t cp;
@@ -160,24 +159,13 @@ decomposition_callback(const char *file, char **field, size_t nfields,
 
 	if (decomp->cp == cp) {
 		/* we hit the line that contains our decomposition target */
-		if (strlen(field[5]) > 0) {
-			p = field[5];
-			if (*p == '<') {
-				/*
-				 * the decomposition contains some metadata
-				 * <...> we skip
-				 */
-				for (; *p != '\0'; p++) {
-					if (*p == '>') {
-						p++;
-						while (*p == ' ') {
-							p++;
-						}
-						break;
-					}
-				}
-			}
-			hextocp(p, strlen(p), &(decomp->decomposition));
+		if (strlen(field[5]) > 0 && field[5][0] != '<') {
+			/*
+			 * only canonical decompositions are of interest
+			 * here, which are those without a <...>-tag
+			 */
+			hextocp(field[5], strlen(field[5]),
+			        &(decomp->decomposition));
 		} else {
 			decomp->decomposition = decomp->cp;
 		}
-- 
2.43.0


From cb0dc0dd902ee02279d69e05983d08bec8cd8731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:22 +0000
Subject: [PATCH 15/18] fix: identify bracket pairs with the stack of BD16

---
 src/bidirectional.c | 242 ++++++++++++--------------------------------
 1 file changed, 66 insertions(+), 176 deletions(-)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index 2a53d03..1106694 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -15,6 +15,7 @@ enum state_type {
 	STATE_LEVEL,           /* in 0..MAX_DEPTH+1=126, embedding level */
 	STATE_PARAGRAPH_LEVEL, /* in 0..1, paragraph embedding level */
 	STATE_VISITED,         /* in 0..1, visited within isolating run */
+	STATE_PAIRED,          /* in 0..1, part of a bracket pair */
 };
 
 static struct {
@@ -52,6 +53,11 @@ static struct {
 		.mask_shift   = 26,
 		.value_offset = 0,
 	},
+	[STATE_PAIRED] = {
+		.filter_mask  = 0x8000000, /* 00001000 00000000 00000000 00000000 */
+		.mask_shift   = 27,
+		.value_offset = 0,
+	},
 };
 
 static inline int_least16_t
@@ -451,199 +457,82 @@ preprocess_bracket_pairs(uint_least32_t *buf, size_t buflen, size_t off,
 	 * separate list of pairs, which is then to be sorted by opening
 	 * position. Thus, even though the bracketing-depth is limited
 	 * by 63, the algorithm, as is, requires dynamic memory
-	 * management.
-	 *
-	 * A naive approach (used by Fribidi) would be to screw the
-	 * stack-approach and simply directly determine the
-	 * corresponding closing bracket offset for a given opening
-	 * bracket, leading to O(n²) time complexity in the worst case
-	 * with a lot of brackets. While many brackets are not common,
-	 * it is still possible to find a middle ground where you obtain
-	 * strongly linear time complexity in most common cases:
+	 * management for the list.
 	 *
-	 * Instead of a stack, we use a FIFO data structure which is
-	 * filled with bracket openings in the order of appearance (thus
-	 * yielding an implicit sorting!) at the top. If the
-	 * corresponding closing bracket is encountered, it is added to
-	 * the respective entry, making it ready to "move out" at the
-	 * bottom (i.e. passed to the bracket processing). Due to the
-	 * nature of the specified pair detection algorithm, which only
-	 * cares about the bracket type and nothing else (bidi class,
-	 * level, etc.), we can mix processing and bracket detection.
-	 *
-	 * Obviously, if you, for instance, have one big bracket pair at
-	 * the bottom that has not been closed yet, it will block the
-	 * bracket processing and the FIFO might hit its capacity limit.
-	 * At this point, the blockage is manually resolved using the
-	 * naive quadratic approach.
-	 *
-	 * To remain within the specified standard behaviour, which
-	 * mandates that processing of brackets should stop when the
-	 * bracketing-depth is at 63, we simply check in an "overflow"
-	 * scenario if all 63 elements in the LIFO are unfinished, which
-	 * corresponds with such a bracketing depth.
+	 * Instead of creating a list, we mark the openings and closings
+	 * of all pairs in the buffer. By construction two pairs are
+	 * either disjoint or nested, so going through the sequence once
+	 * more yields all pairs in the order of their openings and the
+	 * closing corresponding to an opening is found by counting.
 	 */
-	enum bidi_property prop;
-
 	struct {
-		bool complete;
-		size_t bracket_class;
-		struct isolate_runner start;
-		struct isolate_runner end;
-	} fifo[63];
-	const struct bracket *bracket_prop, *tmp_bracket_prop;
-	struct isolate_runner ir, tmp_ir;
-	size_t fifo_len = 0, i, blevel, j, k;
+		uint_least8_t bracket_class;
+		size_t off;
+	} stack[63];
+	const struct bracket *bracket_prop;
+	struct isolate_runner ir, tmp;
+	size_t stack_len, i, depth;
 
+	/* BD16 */
 	ir_init(buf, buflen, off, paragraph_level, false, &ir);
-	while (!ir_advance(&ir)) {
-		prop = ir_get_current_prop(&ir);
+	for (stack_len = 0; !ir_advance(&ir);) {
+		if (ir_get_current_prop(&ir) != BIDI_PROP_ON) {
+			continue;
+		}
 		bracket_prop = ir_get_current_bracket_prop(&ir);
-		if (prop == BIDI_PROP_ON &&
-		    bracket_prop->type == BIDI_BRACKET_OPEN) {
-			if (fifo_len == LEN(fifo)) {
-				/*
-				 * The FIFO is full, check first if it's
-				 * completely blocked (i.e. no finished
-				 * bracket pairs, triggering the standard
-				 * that mandates to abort in such a case
-				 */
-				for (i = 0; i < fifo_len; i++) {
-					if (fifo[i].complete) {
-						break;
-					}
-				}
-				if (i == fifo_len) {
-					/* abort processing */
-					return;
-				}
 
-				/*
-				 * by construction, the bottom entry
-				 * in the FIFO is guaranteed to be
-				 * unfinished (given we "consume" all
-				 * finished bottom entries after each
-				 * iteration).
-				 *
-				 * iterate, starting after the opening
-				 * bracket, and find the corresponding
-				 * closing bracket.
-				 *
-				 * if we find none, just drop the FIFO
-				 * entry silently
-				 */
-				for (tmp_ir = fifo[0].start, blevel = 0;
-				     !ir_advance(&tmp_ir);) {
-					tmp_bracket_prop =
-						ir_get_current_bracket_prop(
-							&tmp_ir);
-
-					if (tmp_bracket_prop->type ==
-					            BIDI_BRACKET_OPEN &&
-					    tmp_bracket_prop->class ==
-					            bracket_prop->class) {
-						/* we encountered another
-						 * opening bracket of the
-						 * same class */
-						blevel++;
-
-					} else if (tmp_bracket_prop->type ==
-					                   BIDI_BRACKET_CLOSE &&
-					           tmp_bracket_prop->class ==
-					                   bracket_prop
-					                           ->class) {
-						/* we encountered a closing
-						 * bracket of the same class
-						 */
-						if (blevel == 0) {
-							/* this is the
-							 * corresponding
-							 * closing bracket
-							 */
-							fifo[0].complete = true;
-							fifo[0].end = ir;
-						} else {
-							blevel--;
-						}
-					}
-				}
-				if (fifo[0].complete) {
-					/* we found the matching bracket */
-					preprocess_bracket_pair(
-						&(fifo[i].start),
-						&(fifo[i].end));
-				}
-
-				/* shift FIFO one to the left */
-				for (i = 1; i < fifo_len; i++) {
-					fifo[i - 1] = fifo[i];
-				}
-				fifo_len--;
+		if (bracket_prop->type == BIDI_BRACKET_OPEN) {
+			if (stack_len == LEN(stack)) {
+				/* no room left, stop processing */
+				break;
 			}
-
-			/* add element to the FIFO */
-			fifo_len++;
-			fifo[fifo_len - 1].complete = false;
-			fifo[fifo_len - 1].bracket_class = bracket_prop->class;
-			fifo[fifo_len - 1].start = ir;
-		} else if (prop == BIDI_PROP_ON &&
-		           bracket_prop->type == BIDI_BRACKET_CLOSE) {
+			stack[stack_len].bracket_class = bracket_prop->class;
+			stack[stack_len].off = ir.cur.off;
+			stack_len++;
+		} else if (bracket_prop->type == BIDI_BRACKET_CLOSE) {
 			/*
-			 * go backwards in the FIFO, skip finished entries
-			 * and simply ignore (do nothing) the closing
-			 * bracket if we do not match anything
+			 * go backwards in the stack and ignore (do nothing)
+			 * the closing bracket if we do not match anything
 			 */
-			for (i = fifo_len; i > 0; i--) {
-				if (bracket_prop->class ==
-				            fifo[i - 1].bracket_class &&
-				    !fifo[i - 1].complete) {
-					/* we have found a pair */
-					fifo[i - 1].complete = true;
-					fifo[i - 1].end = ir;
-
-					/* remove all uncompleted FIFO elements
-					 * above i - 1 */
-					for (j = i; j < fifo_len;) {
-						if (fifo[j].complete) {
-							j++;
-							continue;
-						}
-
-						/* shift FIFO one to the left */
-						for (k = j + 1; k < fifo_len;
-						     k++) {
-							fifo[k - 1] = fifo[k];
-						}
-						fifo_len--;
-					}
-					break;
+			for (i = stack_len; i > 0; i--) {
+				if (bracket_prop->class !=
+				    stack[i - 1].bracket_class) {
+					continue;
 				}
+
+				/* we have found a pair */
+				set_state(STATE_PAIRED, 1,
+				          &(buf[stack[i - 1].off]));
+				set_state(STATE_PAIRED, 1,
+				          &(buf[ir.cur.off]));
+				stack_len = i - 1;
+				break;
 			}
 		}
+	}
 
-		/* process all ready bracket pairs from the FIFO bottom */
-		while (fifo_len > 0 && fifo[0].complete) {
-			preprocess_bracket_pair(&(fifo[0].start),
-			                        &(fifo[0].end));
+	/* process all bracket pairs in the order of their openings */
+	ir_init(buf, buflen, off, paragraph_level, false, &ir);
+	while (!ir_advance(&ir)) {
+		if (get_state(STATE_PAIRED, buf[ir.cur.off]) == 0 ||
+		    ir_get_current_bracket_prop(&ir)->type !=
+		            BIDI_BRACKET_OPEN) {
+			continue;
+		}
 
-			/* shift FIFO one to the left */
-			for (j = 0; j + 1 < fifo_len; j++) {
-				fifo[j] = fifo[j + 1];
+		/* find the corresponding closing bracket */
+		for (tmp = ir, depth = 1; !ir_advance(&tmp);) {
+			if (get_state(STATE_PAIRED, buf[tmp.cur.off]) == 0) {
+				continue;
 			}
-			fifo_len--;
-		}
-	}
 
-	/*
-	 * afterwards, we still might have unfinished bracket pairs
-	 * that will remain as such, but the subsequent finished pairs
-	 * also need to be taken into account, so we go through the
-	 * FIFO once more and process all finished pairs
-	 */
-	for (i = 0; i < fifo_len; i++) {
-		if (fifo[i].complete) {
-			preprocess_bracket_pair(&(fifo[i].start),
-			                        &(fifo[i].end));
+			if (ir_get_current_bracket_prop(&tmp)->type ==
+			    BIDI_BRACKET_OPEN) {
+				depth++;
+			} else if (--depth == 0) {
+				preprocess_bracket_pair(&ir, &tmp);
+				break;
+			}
 		}
 	}
 }
@@ -1401,6 +1290,7 @@ preprocess(HERODOTUS_READER *r, enum grapheme_bidirectional_direction override,
 			set_state(STATE_LEVEL, 0, &(buf[bufoff]));
 			set_state(STATE_PARAGRAPH_LEVEL, 0, &(buf[bufoff]));
 			set_state(STATE_VISITED, 0, &(buf[bufoff]));
+			set_state(STATE_PAIRED, 0, &(buf[bufoff]));
 			set_state(STATE_PRESERVED_PROP,
 			          (uint_least8_t)get_bidi_property(cp),
 			          &(buf[bufoff]));
-- 
2.43.0


From 363dee357d39bf5c5113a9e4bd14446f0882dc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:19 +0000
Subject: [PATCH 16/18] fix: only process as much of a paragraph as fits into
 the buffer

---
 src/bidirectional.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index 1106694..7c86dec 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -1296,7 +1296,7 @@ preprocess(HERODOTUS_READER *r, enum grapheme_bidirectional_direction override,
 			          &(buf[bufoff]));
 		}
 	}
-	bufsize = herodotus_reader_number_read(r);
+	bufsize = MIN(herodotus_reader_number_read(r), buflen);
 
 	for (bufoff = 0; bufoff < bufsize; bufoff++) {
 		if (get_state(STATE_PROP, buf[bufoff]) != BIDI_PROP_B &&
-- 
2.43.0


From d5ab5ed60cc880551d36ecd5abf79a3575eb9de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:26 +0000
Subject: [PATCH 17/18] fix: do not access line levels beyond the given array

---
 src/bidirectional.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index 7c86dec..d0e22b1 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -1355,7 +1355,7 @@ get_line_embedding_levels(const uint_least32_t *linedata, size_t linelen,
 
 		/* write level into level array if we still have space */
 		if (level != -1 || skipignored == false) {
-			if (levlen <= levsize) {
+			if (levlen < levsize) {
 				set_level(lev, levlen, level);
 			}
 			levlen++;
@@ -1386,7 +1386,7 @@ get_line_embedding_levels(const uint_least32_t *linedata, size_t linelen,
 		 * we hit the end of the line but were in a run;
 		 * reset the line levels to the paragraph level
 		 */
-		for (i = runsince; i < MIN(linelen, levlen); i++) {
+		for (i = runsince; i < MIN(levsize, levlen); i++) {
 			if (get_level(lev, i) != -1) {
 				set_level(lev, i, runlevel);
 			}
-- 
2.43.0


From ef9fc4f8eda49dcec91adfb04448530f88d601f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:35 +0000
Subject: [PATCH 18/18] fix: accept a reorder output buffer of exactly the
 needed size

---
 src/bidirectional.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index d0e22b1..2e092dc 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -1468,7 +1468,7 @@ grapheme_bidirectional_reorder_line(const uint_least32_t *line,
 			outputlen++;
 		}
 	}
-	if (outputlen >= outputsize) {
+	if (outputlen > outputsize) {
 		/* clear output buffer */
 		for (i = 0; i < outputsize; i++) {
 			output[i] = GRAPHEME_INVALID_CODEPOINT;
-- 
2.43.0

