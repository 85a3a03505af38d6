From a8b22a035c3e40f7437d379d476678008acc7113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 01/14] fix: cruise climb target level was cut one character
 short for Mach and for metric first levels

---
 F15_Parser/F15Parse.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index 1e7c25d..44899f5 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -548,21 +548,21 @@ class ParseF15:
                     TokenSubType.F15_SB_SPEED_ALTITUDE_NMF | TokenSubType.F15_SB_SPEED_ALTITUDE_NMS | \
                     TokenSubType.F15_SB_SPEED_ALTITUDE_NMA | TokenSubType.F15_SB_SPEED_ALTITUDE_NMM:
                 self.assign_altitude(ers, token, ex_route_rec, token_string[5:10], False)
-                self.assign_altitude(ers, token, ex_route_rec, token_string[11:], True)
+                self.assign_altitude(ers, token, ex_route_rec, token_string[10:], True)
                 self.assign_speed(ex_route_rec, token_string[0:5])
             case TokenSubType.F15_SB_SPEED_ALTITUDE_MFF | TokenSubType.F15_SB_SPEED_ALTITUDE_MFS | \
                     TokenSubType.F15_SB_SPEED_ALTITUDE_MFA | TokenSubType.F15_SB_SPEED_ALTITUDE_MFM | \
                     TokenSubType.F15_SB_SPEED_ALTITUDE_MAF | TokenSubType.F15_SB_SPEED_ALTITUDE_MAS | \
                     TokenSubType.F15_SB_SPEED_ALTITUDE_MAA | TokenSubType.F15_SB_SPEED_ALTITUDE_MAM:
                 self.assign_altitude(ers, token, ex_route_rec, token_string[4:8], False)
-                self.assign_altitude(ers, token, ex_route_rec, token_string[9:], True)
+                self.assign_altitude(ers, token, ex_route_rec, token_string[8:], True)
                 self.assign_speed(ex_route_rec, token_string[0:4])
             case TokenSubType.F15_SB_SPEED_ALTITUDE_MSF | TokenSubType.F15_SB_SPEED_ALTITUDE_MSS | \
                     TokenSubType.F15_SB_SPEED_ALTITUDE_MSA | TokenSubType.F15_SB_SPEED_ALTITUDE_MSM | \
                     TokenSubType.F15_SB_SPEED_ALTITUDE_MMF | TokenSubType.F15_SB_SPEED_ALTITUDE_MMS | \
                     TokenSubType.F15_SB_SPEED_ALTITUDE_MMA | TokenSubType.F15_SB_SPEED_ALTITUDE_MMM:
                 self.assign_altitude(ers, token, ex_route_rec, token_string[4:9], False)
-                self.assign_altitude(ers, token, ex_route_rec, token_string[10:], True)
+                self.assign_altitude(ers, token, ex_route_rec, token_string[9:], True)
                 self.assign_speed(ex_route_rec, token_string[0:4])
             case _:
                 self.assign_altitude(ers, token, ex_route_rec, "X000", False)
-- 
2.43.0


From 5d931f81362cd4e8b28d53348cb62fd6078ac4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 02/14] fix: knots/altitude cruise climb syntax expected a 4
 digit A level and then crashed the parser

---
 F15_Parser/F15TokenSyntaxDescriptions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/F15_Parser/F15TokenSyntaxDescriptions.py b/F15_Parser/F15TokenSyntaxDescriptions.py
index ebb3cfb..97d751d 100644
--- a/F15_Parser/F15TokenSyntaxDescriptions.py
+++ b/F15_Parser/F15TokenSyntaxDescriptions.py
@@ -319,11 +319,11 @@ class F15TokenSyntaxDefinition:
          TokenSubType.F15_SB_SPEED_ALTITUDE_NSM],
         ["N[0-9]{4}A[0-9]{3}F[0-9]{3}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
          TokenSubType.F15_SB_SPEED_ALTITUDE_NAF],
-        ["N[0-9]{4}A[0-9]{4}S[0-9]{4}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
+        ["N[0-9]{4}A[0-9]{3}S[0-9]{4}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
          TokenSubType.F15_SB_SPEED_ALTITUDE_NAS],
         ["N[0-9]{4}A[0-9]{3}A[0-9]{3}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
          TokenSubType.F15_SB_SPEED_ALTITUDE_NAA],
-        ["N[0-9]{4}A[0-9]{4}M[0-9]{4}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
+        ["N[0-9]{4}A[0-9]{3}M[0-9]{4}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
          TokenSubType.F15_SB_SPEED_ALTITUDE_NAM],
         ["N[0-9]{4}M[0-9]{4}F[0-9]{3}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
          TokenSubType.F15_SB_SPEED_ALTITUDE_NMF],
-- 
2.43.0


From 1a3849e325a677ca9bf97cd7da62aece92df6ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 03/14] fix: K/F/A cruise climb element was classified with the
 K/F/S subtype

---
 F15_Parser/F15TokenSyntaxDescriptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/F15_Parser/F15TokenSyntaxDescriptions.py b/F15_Parser/F15TokenSyntaxDescriptions.py
index 97d751d..c3e634d 100644
--- a/F15_Parser/F15TokenSyntaxDescriptions.py
+++ b/F15_Parser/F15TokenSyntaxDescriptions.py
@@ -338,7 +338,7 @@ class F15TokenSyntaxDefinition:
         ["K[0-9]{4}F[0-9]{3}S[0-9]{4}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
          TokenSubType.F15_SB_SPEED_ALTITUDE_KFS],
         ["K[0-9]{4}F[0-9]{3}A[0-9]{3}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
-         TokenSubType.F15_SB_SPEED_ALTITUDE_KFS],
+         TokenSubType.F15_SB_SPEED_ALTITUDE_KFA],
         ["K[0-9]{4}F[0-9]{3}M[0-9]{4}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
          TokenSubType.F15_SB_SPEED_ALTITUDE_KFM],
         ["K[0-9]{4}S[0-9]{4}F[0-9]{3}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
-- 
2.43.0


From 7c8239a29370b56a01373d9424ab59276696c84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 04/14] fix: asking for the element one past the end raised
 IndexError instead of returning None

---
 F15_Parser/ExtractedRouteSequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/F15_Parser/ExtractedRouteSequence.py b/F15_Parser/ExtractedRouteSequence.py
index e6a8ad2..a81e737 100644
--- a/F15_Parser/ExtractedRouteSequence.py
+++ b/F15_Parser/ExtractedRouteSequence.py
@@ -147,7 +147,7 @@ class ExtractedRouteSequence:
 
         :param index: The index of the extracted route record to be retrieved;
         :return: An instance of ExtractedRouteRecord located at index provided or None if index is out of range;"""
-        if index < 0 or index > self.get_number_of_elements():
+        if index < 0 or index >= self.get_number_of_elements():
             return None
         return self.extracted_route_records[index]
 
-- 
2.43.0


From bd721a7be57656eb8f46bbf993c1d8eab5753b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 05/14] fix: a lat/long point rejected after an ATS route was
 appended behind all later elements

---
 F15_Parser/F15Parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index 44899f5..3f9babf 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -1380,7 +1380,7 @@ class ParseF15:
                 if sub_type == TokenSubType.F15_SB_PRP_BD or sub_type == TokenSubType.F15_SB_LL_DEG or \
                     sub_type == TokenSubType.F15_SB_LL_MIN or sub_type == TokenSubType.F15_SB_LLBD_DEG or \
                         sub_type == TokenSubType.F15_SB_LLBD_MIN:
-                    self.add_error_and_re_sync(ers, tokens, next_token, 48)
+                    self.add_error_no_re_sync(ers, next_token, 48)
                 self.point(ers, tokens, next_token)
             case TokenBaseType.F15_ROUTE:
                 self.add_error_and_re_sync(ers, tokens, next_token, 53)
-- 
2.43.0


From ecabe046e5f9975d73b40868fceadccf48c63a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 06/14] fix: azimuth and distance skipped over an intermediate
 point without coordinates

---
 F15_Parser/F15Parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index 3f9babf..c9f8f0d 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -249,7 +249,7 @@ class ParseF15:
                 # Set azimuth and distance between the two points at the previous
                 # point.
                 self.set_azimuth_and_distance(last_but_one_ers, last_ers)
-            else:
+            elif last_but_one_ers.get_base_type() not in (TokenBaseType.F15_POINT, TokenBaseType.F15_C):
                 # Go back one more ERS element and check if this is a point
                 last_minus_two_ers = ers.get_element_at(ers.get_number_of_elements()-3)
                 if last_minus_two_ers is None:
-- 
2.43.0


From 5f66498cdc0ff2c5949248d58603f6e9831cb5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 07/14] fix: coordinates of a VFR/IFR/VFR rule change point
 were neither decoded nor checked

---
 F15_Parser/F15Parse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index c9f8f0d..35ec8d5 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -1675,6 +1675,9 @@ class ParseF15:
         token = tokens.get_next_token()
         ex_route_rec = self.add_record(ers, token)
 
+        # Check lat/long and bearing distance semantics
+        self.assign_lat_long_bearing_distance(ers, token)
+
         # As this rule change is VFR to IFR and this is a speed altitude element,
         # the rules must be IFR
         ex_route_rec.set_flight_rules(self.RULES["I"])
-- 
2.43.0


From b790e6b962e82034587ec39b540ed9a375ded104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 08/14] fix: an over-long break text element was appended to an
 unrelated record after re-synchronisation

---
 F15_Parser/F15Parse.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index 35ec8d5..555b6aa 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -834,14 +834,15 @@ class ParseF15:
         :param token: The 'break' text token being saved to the 'break' start token;
         :return: None
         """
-        base_type = token.get_token_base_type()
-        if base_type is TokenBaseType.F15_TOO_LONG:
-            self.add_error_and_re_sync(ers, tokens, token, 4)
-
         # Save the token as break text
         last_ers = ers.get_last_element()
         last_ers.append_break_text(token.get_token_string())
 
+        base_type = token.get_token_base_type()
+        if base_type is TokenBaseType.F15_TOO_LONG:
+            self.add_error_and_re_sync(ers, tokens, token, 4)
+            return
+
         sub_type = token.get_token_sub_type()
         cur_break_type = ers.get_last_element().get_flight_rules()
 
-- 
2.43.0


From 5e167170c685a8943c81d613becd8c653ed9dd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 09/14] fix: re-synchronisation silently dropped everything
 after an unmatched IFR, GAT or IFPSTART

---
 F15_Parser/F15Parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index 555b6aa..81c6966 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -1305,6 +1305,8 @@ class ParseF15:
                 self.assign_speed_vfr(ers, tokens, token)
             case TokenBaseType.F15_BREAK_END:
                 self.break_end(ers, tokens, token)
+                # Carry on with whatever the rule change did not consume
+                self.re_sync_parser_after_error(ers, tokens)
             case TokenBaseType.F15_DCT:
                 self.dct(ers, tokens, token)
             case TokenBaseType.F15_STAY:
-- 
2.43.0


From 12efc8c7df468e76879bb0a34d727bee63ef10c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 10/14] fix: any element, even an unrecognised one, was
 accepted as the point of a cruise climb

---
 F15_Parser/F15Parse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index 81c6966..c8eb180 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -975,6 +975,10 @@ class ParseF15:
         :param token: The point in a cruise/climb element;
         :return: None
         """
+        if token.get_token_base_type() not in (TokenBaseType.F15_POINT, TokenBaseType.F15_C):
+            self.add_error_and_re_sync(ers, tokens, token, 18)
+            return
+
         # Save the cruise / climb point
         self.add_record(ers, token)
 
-- 
2.43.0


From 3c0c29c632a2977c3338c14c01700cf00a0ba752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 11/14] fix: an ATS route after STAY at a lat/long point
 escaped the lat/long check

---
 F15_Parser/F15Parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index c8eb180..35291ee 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -1593,7 +1593,7 @@ class ParseF15:
             case TokenBaseType.F15_POINT:
                 self.point(ers, tokens, next_token)
             case TokenBaseType.F15_ROUTE:
-                self.route(ers, tokens, next_token)
+                self.post_point(ers, tokens, next_token)
             case TokenBaseType.F15_SID_STAR:
                 self.sid_star(ers, tokens, next_token)
             case TokenBaseType.F15_TOO_LONG:
-- 
2.43.0


From 4e369aba98e3cfd854f38c77b02ac7d5db16159a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 12/14] fix: markup characters of an element were copied
 unescaped into the XML output

---
 F15_Parser/ExtractedRouteRecord.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/F15_Parser/ExtractedRouteRecord.py b/F15_Parser/ExtractedRouteRecord.py
index 1fb9f8a..1fe6729 100644
--- a/F15_Parser/ExtractedRouteRecord.py
+++ b/F15_Parser/ExtractedRouteRecord.py
@@ -1,3 +1,5 @@
+from xml.sax.saxutils import escape
+
 from F15_Parser.F15TokenSyntaxDescriptions import TokenBaseType, TokenSubType
 
 
@@ -566,5 +568,5 @@ class ExtractedRouteRecord:
                " altitude_cruise_to_si=\"" + "{0:.2f}".format(self.get_altitude_cruise_to_si()) + "\"" + \
                " latitude=\"" + "{0:>.2f}".format(self.get_latitude()) + "\"" + \
                " longitude=\"" + "{0:>.2f}".format(self.get_longitude()) + "\"" + \
-               " " + attr_name + "=\"" + error_or_break + "\"" + \
-               ">" + self.get_name() + "</" + rec_type + ">"
+               " " + attr_name + "=\"" + escape(error_or_break, {"\"": "&quot;"}) + "\"" + \
+               ">" + escape(self.get_name()) + "</" + rec_type + ">"
-- 
2.43.0


From bf491a8672a12fb127319c8fd582ad3812e0e0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 13/14] fix: a lat/long point after an ATS route escaped the
 check when it is a cruise climb point

---
 F15_Parser/F15Parse.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index 35291ee..609077c 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -979,6 +979,13 @@ class ParseF15:
             self.add_error_and_re_sync(ers, tokens, token, 18)
             return
 
+        # A Lat/Long point cannot follow an ATS route
+        if ers.get_last_element().get_base_type() == TokenBaseType.F15_ROUTE and \
+                token.get_token_sub_type() in (TokenSubType.F15_SB_PRP_BD, TokenSubType.F15_SB_LL_DEG,
+                                               TokenSubType.F15_SB_LL_MIN, TokenSubType.F15_SB_LLBD_DEG,
+                                               TokenSubType.F15_SB_LLBD_MIN):
+            self.add_error_no_re_sync(ers, token, 48)
+
         # Save the cruise / climb point
         self.add_record(ers, token)
 
-- 
2.43.0


From 64cf544f4e9395190392b721b6d82d803a991c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:23 +0000
Subject: [PATCH 14/14] fix: clear the SI cruise climb target when a 'PLUS'
 element replaces a target level

---
 F15_Parser/F15Parse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index 609077c..1ac9672 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -622,6 +622,9 @@ class ParseF15:
                 self.assign_speed(ex_route_rec, "X000")
                 return
 
+        # 'PLUS' is not a level, a target level given for this record before no longer applies
+        ex_route_rec.set_altitude_cruise_to_si(0.0)
+
         # As this is a speed altitude element, the rules must be IFR
         ex_route_rec.set_flight_rules(self.RULES["I"])
 
-- 
2.43.0

