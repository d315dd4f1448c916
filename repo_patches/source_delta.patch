From 0433ccb09074b713c5cee96400e22b8a3460744d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:25 +0000
Subject: [PATCH 01/35] fix: keep the upper bits of payload bytes shifted by
 25..31 in signals wider than 32 bits

---
 src/codegen/c-sigprinter.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index 3ea51cd..4b4e93d 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -16,6 +16,13 @@ static inline int32_t ShiftByte(const SignalDescriptor_t* sig, int32_t bn)
   return (sig->Order == BitLayout::kIntel) ? (bn - 1) : (bn + 1);
 }
 
+// a payload byte which is shifted more than 24 bits left loses its upper bits
+// in 32-bit arithmetic, so for the wide signals it must be extended before
+static inline bool Need64Bit(const SignalDescriptor_t* sig, int32_t shift)
+{
+  return (sig->LengthBit > 32) && (shift > 24);
+}
+
 CSigPrinter::CSigPrinter()
 {
   sigs_expr.clear();
@@ -232,7 +239,7 @@ std::string CSigPrinter::PrintSignalExpr(const SignalDescriptor_t* sig, std::vec
     std::string t64 = "";
     slen -= bbc;
 
-    if (slen > 31)
+    if (Need64Bit(sig, slen))
     {
       t64 = "(uint64_t)";
     }
@@ -273,7 +280,7 @@ std::string CSigPrinter::PrintSignalExpr(const SignalDescriptor_t* sig, std::vec
       }
       else
       {
-        if (slen > 31)
+        if (Need64Bit(sig, slen))
         {
           t64 = "(uint64_t)";
         }
-- 
2.43.0


From 90cf799c81b309e9c436cb0d59338a3f3f07f5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:16 +0000
Subject: [PATCH 02/35] fix: build the sign bit mask of __ext_sig__ in the
 width of ubitext_t

---
 src/codegen/c-main-generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index dc9c5ae..47eb63b 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -27,7 +27,7 @@ const char* extend_func_body =
   "// Defined these typedefs in @dbccodeconf.h or locally in 'dbcdrvname'-config.h\n"
   "static bitext_t %s(ubitext_t val, uint8_t bits)\n"
   "{\n"
-  "  ubitext_t const m = (ubitext_t) (1u << (bits - 1u));\n"
+  "  ubitext_t const m = (ubitext_t) ((ubitext_t) 1u << (bits - 1u));\n"
   "  return ((val ^ m) - m);\n"
   "}\n\n";
 
-- 
2.43.0


From 47d5f93b8afeab36d27a0afd481ddc77ee056edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:04 +0000
Subject: [PATCH 03/35] fix: take the last frame of the file into account for
 the maximum DLC value

---
 src/parser/dbcscanner.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 2757b35..90504e1 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -80,12 +80,6 @@ void DbcScanner::ParseMessageInfo(istream& readstrm)
     // New message line has been found
     if (lparser.IsMessageLine(sline))
     {
-      // if actual message, check DLC value for being max
-      if ((pMsg != nullptr) && (pMsg->DLC > dblist.maxDlcValue))
-      {
-        dblist.maxDlcValue = pMsg->DLC;
-      }
-
       // the message will be added only if pMsg is not nullptr
       AddMessage(pMsg);
 
@@ -311,6 +305,12 @@ void DbcScanner::AddMessage(MessageDescriptor_t* message)
       }
     }
 
+    // check DLC value for being max
+    if (message->DLC > dblist.maxDlcValue)
+    {
+      dblist.maxDlcValue = message->DLC;
+    }
+
     // save pointer on message
     dblist.msgs.push_back(message);
   }
-- 
2.43.0


From cabcb428c5bc1ebf489bf74e3939dca3cfd34d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 04/35] fix: do not let the initial byte value leak into the
 bits of signals

---
 src/codegen/c-main-generator.cpp |  4 +++-
 src/codegen/c-sigprinter.cpp     | 22 ++++++++++++++++++++++
 src/types/c-expr.h               |  4 ++++
 3 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index 47eb63b..c249ebb 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -849,7 +849,9 @@ void CiMainGenerator::PrintPackCommonText(const std::string& arrtxt, const CiExp
       continue;
     }
 
-    fwriter.Append("  %s[%d] |= (uint8_t) ( %s );", arrtxt.c_str(), i, sgs->to_bytes[i].c_str());
+    // the bits of signals must not keep the initial byte value
+    fwriter.Append("  %s[%d] = (uint8_t) ((%s[%d] & (0x%02XU)) | ( %s ));", arrtxt.c_str(), i,
+      arrtxt.c_str(), i, 0xFFu & ~sgs->bytes_mask[i], sgs->to_bytes[i].c_str());
   }
 
   fwriter.Append("");
diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index 4b4e93d..bd80eb8 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -23,6 +23,26 @@ static inline bool Need64Bit(const SignalDescriptor_t* sig, int32_t shift)
   return (sig->LengthBit > 32) && (shift > 24);
 }
 
+// marks all the bits of the signal in the byte masks
+static void MarkSignalBits(const SignalDescriptor_t* sig, std::vector<uint8_t>& masks)
+{
+  uint32_t pos = sig->StartBit;
+
+  for (uint32_t i = 0; i < sig->LengthBit && (pos / 8) < masks.size(); i++)
+  {
+    masks[pos / 8] |= (uint8_t)(1u << (pos % 8));
+
+    if (sig->Order == BitLayout::kIntel)
+    {
+      pos += 1;
+    }
+    else
+    {
+      pos = (pos % 8 == 0) ? (pos + 15) : (pos - 1);
+    }
+  }
+}
+
 CSigPrinter::CSigPrinter()
 {
   sigs_expr.clear();
@@ -138,6 +158,7 @@ int32_t CSigPrinter::BuildCConvertExprs(CiExpr_t* msgprinter)
   msgprinter->to_bytes.clear();
   msgprinter->to_signals.clear();
   msgprinter->to_bytes.resize(msgprinter->msg.DLC);
+  msgprinter->bytes_mask.assign(msgprinter->msg.DLC, 0);
 
   // for each signal specific to_signal expression must be defined,
   // and during all signals processing, for each byte to_byte expression
@@ -161,6 +182,7 @@ int32_t CSigPrinter::BuildCConvertExprs(CiExpr_t* msgprinter)
     //
     // bytes expression is saved to vector @to_bytes, where id is the
     // byte number in frame payload (i.e. to_bytes.size() == frame.DLC)
+    MarkSignalBits(&msgprinter->msg.Signals[i], msgprinter->bytes_mask);
     msgprinter->to_signals.push_back(PrintSignalExpr(&msgprinter->msg.Signals[i], msgprinter->to_bytes));
   }
 
diff --git a/src/types/c-expr.h b/src/types/c-expr.h
index 996cca8..caf8ce0 100644
--- a/src/types/c-expr.h
+++ b/src/types/c-expr.h
@@ -18,4 +18,8 @@ typedef struct
   // frame fields to data bytes
   std::vector<std::string> to_bytes;
 
+  // this field contains the mask of bits taken by signals
+  // for each data byte
+  std::vector<uint8_t> bytes_mask;
+
 } CiExpr_t;
\ No newline at end of file
-- 
2.43.0


From beab1d439221927214ce5c418d63269b1adfcda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 05/35] fix: do not cut generated lines that are longer than
 10000 characters

---
 src/codegen/filewriter.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/codegen/filewriter.cpp b/src/codegen/filewriter.cpp
index ba27e10..3dec1be 100644
--- a/src/codegen/filewriter.cpp
+++ b/src/codegen/filewriter.cpp
@@ -5,20 +5,24 @@
 #include <assert.h>
 #include "filewriter.h"
 
-template<size_t N = 10000>
-std::string __print_loc__(const char* format, va_list args)
+static std::string __print_loc__(const char* format, va_list args)
 {
-  char work_buff[N] = {0};
-  auto ret = vsnprintf(work_buff, N, format, args);
+  va_list sizing;
+  va_copy(sizing, args);
+  auto ret = vsnprintf(nullptr, 0, format, sizing);
+  va_end(sizing);
 
-  if (ret >= N)
+  if (ret <= 0)
   {
-    std::cout << "Attention (!) the line has been shortened : " << std::endl;
-    std::cout << work_buff << std::endl;
+    return "";
   }
 
-  // make string from local array
-  return work_buff;
+  // one additional place for terminating zero
+  std::string text(static_cast<size_t>(ret) + 1u, '\0');
+  vsnprintf(&text[0], text.size(), format, args);
+  text.resize(static_cast<size_t>(ret));
+
+  return text;
 }
 
 void FileWriter::Flush()
-- 
2.43.0


From d08df7a36df0a0b39a5d86f8c6be4d1ca3ebe513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 06/35] fix: calculate integer physical values in a type that
 holds them, also for negative factors and constants above 32 bits

---
 src/codegen/c-main-generator.cpp | 15 ++++++--
 src/codegen/c-sigprinter.cpp     | 14 +++----
 src/parser/dbclineparser.cpp     | 66 +++++++++++++++++++++-----------
 src/types/message.h              |  4 ++
 4 files changed, 66 insertions(+), 33 deletions(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index c249ebb..14b6767 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -31,6 +31,12 @@ const char* extend_func_body =
   "  return ((val ^ m) - m);\n"
   "}\n\n";
 
+// returns cast to the type in which the integer conversion of signal must be calculated
+static std::string ConvCast(const SignalDescriptor_t& sig)
+{
+  return (sig.IsDoubleSig || sig.TypeConv.empty()) ? "" : ("(" + sig.TypeConv + ") ");
+}
+
 void CiMainGenerator::Generate(DbcMessageList_t& dlist, const AppSettings_t& fsd)
 {
   // Load income messages to sig printer
@@ -710,10 +716,10 @@ void CiMainGenerator::WriteUnpackBody(const CiExpr_t* sgs)
       }
       else
       {
-        fwriter.Append("  _m->%s = (%s) %s_%s_fromS(_m->%s);",
+        fwriter.Append("  _m->%s = (%s) %s_%s_fromS(%s_m->%s);",
           sgs->msg.Signals[num].NameFloat.c_str(),
           PrintType((int)sgs->msg.Signals[num].TypePhys).c_str(),
-          fdesc->gen.DRVNAME.c_str(), sname, sname);
+          fdesc->gen.DRVNAME.c_str(), sname, ConvCast(sgs->msg.Signals[num]).c_str(), sname);
       }
 
       fwriter.Append("#endif // %s", fdesc->gen.usesigfloat_def.c_str());
@@ -830,11 +836,12 @@ void CiMainGenerator::PrintPackCommonText(const std::string& arrtxt, const CiExp
       if (sgs->msg.Signals[n].IsSimpleSig == false)
       {
         // print toS from *_phys to original named sigint (integer duplicate of signal)
-        fwriter.Append("  _m->%s = (%s) %s_%s_toS(_m->%s);",
+        fwriter.Append("  _m->%s = (%s) %s_%s_toS(%s_m->%s);",
           sgs->msg.Signals[n].Name.c_str(),
           PrintType((int) sgs->msg.Signals[n].TypeRo).c_str(),
           fdesc->gen.DRVNAME.c_str(),
-          sgs->msg.Signals[n].Name.c_str(), sgs->msg.Signals[n].NameFloat.c_str());
+          sgs->msg.Signals[n].Name.c_str(), ConvCast(sgs->msg.Signals[n]).c_str(),
+          sgs->msg.Signals[n].NameFloat.c_str());
       }
     }
 
diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index bd80eb8..f95fd26 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -93,7 +93,7 @@ std::string CSigPrinter::PrintPhysicalToRaw(const SignalDescriptor_t* sig, const
   }
   else
   {
-    retstr += StrPrint("#define %s_%s_CovFactor (%d)\n", drvname.c_str(), sig->Name.c_str(), (int32_t)sig->Factor);
+    retstr += StrPrint("#define %s_%s_CovFactor (%lld)\n", drvname.c_str(), sig->Name.c_str(), (long long)sig->Factor);
   }
 
   retstr += StrPrint("#define %s_%s_toS(x) ( (%s) ", drvname.c_str(), sig->Name.c_str(),
@@ -108,17 +108,17 @@ std::string CSigPrinter::PrintPhysicalToRaw(const SignalDescriptor_t* sig, const
     if (sig->Offset == 0)
     {
       // only factor
-      retstr += StrPrint("((x) / (%d)) )\n", (int32_t)sig->Factor);
+      retstr += StrPrint("((x) / (%lld)) )\n", (long long)sig->Factor);
     }
     else if (sig->Factor == 1)
     {
       // only offset
-      retstr += StrPrint("((x) - (%d)) )\n", (int32_t)sig->Offset);
+      retstr += StrPrint("((x) - (%lld)) )\n", (long long)sig->Offset);
     }
     else
     {
       // full expression
-      retstr += StrPrint("(((x) - (%d)) / (%d)) )\n", (int32_t)sig->Offset, (int32_t)sig->Factor);
+      retstr += StrPrint("(((x) - (%lld)) / (%lld)) )\n", (long long)sig->Offset, (long long)sig->Factor);
     }
   }
 
@@ -133,17 +133,17 @@ std::string CSigPrinter::PrintPhysicalToRaw(const SignalDescriptor_t* sig, const
     if (sig->Offset == 0)
     {
       // only factor
-      retstr += StrPrint("((x) * (%d)) )\n", (int32_t)sig->Factor);
+      retstr += StrPrint("((x) * (%lld)) )\n", (long long)sig->Factor);
     }
     else if (sig->Factor == 1)
     {
       // only offset
-      retstr += StrPrint("((x) + (%d)) )\n", (int32_t)sig->Offset);
+      retstr += StrPrint("((x) + (%lld)) )\n", (long long)sig->Offset);
     }
     else
     {
       // full expression
-      retstr += StrPrint("(((x) * (%d)) + (%d)) )\n", (int32_t)sig->Factor, (int32_t)sig->Offset);
+      retstr += StrPrint("(((x) * (%lld)) + (%lld)) )\n", (long long)sig->Factor, (long long)sig->Offset);
     }
   }
 
diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index d676f16..34245d7 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -1,6 +1,8 @@
 #include <stdlib.h>
 #include <clocale>
 #include <regex>
+#include <algorithm>
+#include <cmath>
 #include <math.h>
 #include <limits.h>
 #include "helpers/formatter.h"
@@ -328,8 +330,6 @@ SigType DbcLineParser::GetSigType(SignalDescriptor_t* sig)
 
   uint8_t is_unsigned = 0;
 
-  int64_t roffset = (int64_t)(sig->Offset / sig->Factor);
-
   uint64_t max_v = 0;
 
   // 1 step is to detect type of _ro
@@ -377,31 +377,26 @@ SigType DbcLineParser::GetSigType(SignalDescriptor_t* sig)
 
   else if (sig->IsDoubleSig == false)
   {
-    int64_t i_offset = (int64_t)sig->Offset;
-    int64_t i_factor = (int64_t)sig->Factor;
+    const double factor = std::trunc(sig->Factor);
+    const double offset = std::trunc(sig->Offset);
+
+    // get limits of raw value
+    const double raw_max = std::pow(2, sig->Signed ? (sig->LengthBit - 1) : sig->LengthBit) - 1;
+    const double raw_min = sig->Signed ? (-raw_max - 1) : 0;
 
-    // get max and min values with applied factor and offset (physical values)
-    max_abs = max_abs * i_factor + i_offset;
-    min_abs = min_abs * i_factor + i_offset;
+    // get max and min values with applied factor and offset (physical values),
+    // negative factor turns the limits over
+    double max_phys = std::max(raw_max * factor, raw_min * factor) + offset;
+    double min_phys = std::min(raw_max * factor, raw_min * factor) + offset;
 
-    if (sig->Signed || max_abs < 0 || min_abs < 0)
+    if (sig->Signed || min_phys < 0)
     {
       // phys value must be signed
-      uint64_t max_v = std::abs(max_abs);
-      uint64_t addon = 0;
-
-      if ((max_v + 1) < std::abs(min_abs))
-      {
-        // low part is main
-        addon = 1;
-        max_v = std::abs(min_abs);
-      }
-
       for (size_t i = 0; i < 4; i++)
       {
         sig->TypePhys = (SigType)(i);
 
-        if (max_v <= __maxsignedvals[i] + addon)
+        if (max_phys <= __maxsignedvals[i] && min_phys >= (-(double)__maxsignedvals[i] - 1))
         {
           break;
         }
@@ -410,16 +405,43 @@ SigType DbcLineParser::GetSigType(SignalDescriptor_t* sig)
     else
     {
       // phys value must be unsigned
-      for (uint8_t i = 0; i < 4; i++)
+      for (size_t i = 0; i < 4; i++)
       {
-        if ((uint64_t)max_abs <= __maxunsigvalues[i])
+        sig->TypePhys = (SigType)(i + 4);
+
+        if (max_phys <= __maxunsigvalues[i])
         {
-          sig->TypePhys = (SigType)(i + 4);
           break;
         }
       }
     }
+
+    // none of the values which appear during conversion may leave the range
+    // of type used for calculation
+    const double int_max = static_cast<double>(INT_MAX);
+    const double max_conv = std::max({raw_max, -raw_min, std::fabs(raw_max * factor), std::fabs(raw_min * factor),
+      std::fabs(max_phys), std::fabs(min_phys), std::fabs(factor), std::fabs(offset)});
+
+    const bool is_unsigned = (sig->TypeRo >= SigType::u32) || (sig->TypePhys >= SigType::u32);
+
+    if (min_phys >= 0 && max_phys >= static_cast<double>(LLONG_MAX))
+    {
+      sig->TypeConv = "uint64_t";
+    }
+    else if (max_conv > int_max)
+    {
+      sig->TypeConv = "int64_t";
+    }
+    else if (is_unsigned)
+    {
+      sig->TypeConv = "int32_t";
+    }
+    else
+    {
+      sig->TypeConv = "";
+    }
   }
+
   else
   {
     // in this case TypePhys will be (sigfloat_t), so
diff --git a/src/types/message.h b/src/types/message.h
index 275b9fc..7d50c29 100644
--- a/src/types/message.h
+++ b/src/types/message.h
@@ -75,6 +75,10 @@ typedef struct
 
   SigType TypePhys;
 
+  // Type in which the integer conversion between raw and physical value
+  // has to be calculated, empty if plain 'int' is enough for it
+  std::string TypeConv;
+
   std::vector<std::string> SigToByte;
 
   double MinValue;
-- 
2.43.0


From ed70ff0bf752bf335bac45a3e4a4672328a8aba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 07/35] fix: give same named signals of different frames their
 own conversion macros

---
 src/codegen/c-main-generator.cpp | 26 +++++++++++++++++++-------
 src/codegen/c-sigprinter.cpp     |  8 ++++----
 src/parser/dbclineparser.cpp     |  1 +
 src/types/message.h              |  3 +++
 4 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index 14b6767..06d1adb 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -6,7 +6,7 @@
 #include <stdarg.h>
 #include <filesystem>
 #include <algorithm>
-#include <set>
+#include <map>
 #include <regex>
 #include "helpers/formatter.h"
 #include "mon-generator.h"
@@ -88,7 +88,7 @@ void CiMainGenerator::Generate(DbcMessageList_t& dlist, const AppSettings_t& fsd
 
 void CiMainGenerator::Gen_MainHeader()
 {
-  std::set<std::string> passed_sigs;
+  std::map<std::string, std::string> passed_sigs;
   fwriter.AppendText(fdesc->gen.start_common_info);
   fwriter.AppendText(fdesc->gen.start_driver_info);
   fwriter.Append("#pragma once");
@@ -189,11 +189,21 @@ void CiMainGenerator::Gen_MainHeader()
 
       if (!s.IsSimpleSig)
       {
-        if (passed_sigs.find(s.Name) == passed_sigs.end())
+        auto convtext = sigprt.PrintPhysicalToRaw(&s, fdesc->gen.DRVNAME);
+        auto passed = passed_sigs.find(s.Name);
+
+        if (passed == passed_sigs.end())
         {
           // print signal macroses only it was not printed before
+          fwriter.Append(convtext);
+          passed_sigs.insert({s.Name, convtext});
+        }
+        else if (passed->second != convtext)
+        {
+          // the same named signal of another frame has different conversion,
+          // this one needs its own macroses
+          s.NameConv = s.Name + "_" + m.Name;
           fwriter.Append(sigprt.PrintPhysicalToRaw(&s, fdesc->gen.DRVNAME));
-          passed_sigs.insert(s.Name);
         }
       }
 
@@ -712,14 +722,16 @@ void CiMainGenerator::WriteUnpackBody(const CiExpr_t* sgs)
       {
         // for double signals (sigfloat_t) type cast
         fwriter.Append("  _m->%s = (sigfloat_t)(%s_%s_fromS(_m->%s));",
-          sgs->msg.Signals[num].NameFloat.c_str(), fdesc->gen.DRVNAME.c_str(), sname, sname);
+          sgs->msg.Signals[num].NameFloat.c_str(), fdesc->gen.DRVNAME.c_str(),
+          sgs->msg.Signals[num].NameConv.c_str(), sname);
       }
       else
       {
         fwriter.Append("  _m->%s = (%s) %s_%s_fromS(%s_m->%s);",
           sgs->msg.Signals[num].NameFloat.c_str(),
           PrintType((int)sgs->msg.Signals[num].TypePhys).c_str(),
-          fdesc->gen.DRVNAME.c_str(), sname, ConvCast(sgs->msg.Signals[num]).c_str(), sname);
+          fdesc->gen.DRVNAME.c_str(), sgs->msg.Signals[num].NameConv.c_str(),
+          ConvCast(sgs->msg.Signals[num]).c_str(), sname);
       }
 
       fwriter.Append("#endif // %s", fdesc->gen.usesigfloat_def.c_str());
@@ -840,7 +852,7 @@ void CiMainGenerator::PrintPackCommonText(const std::string& arrtxt, const CiExp
           sgs->msg.Signals[n].Name.c_str(),
           PrintType((int) sgs->msg.Signals[n].TypeRo).c_str(),
           fdesc->gen.DRVNAME.c_str(),
-          sgs->msg.Signals[n].Name.c_str(), ConvCast(sgs->msg.Signals[n]).c_str(),
+          sgs->msg.Signals[n].NameConv.c_str(), ConvCast(sgs->msg.Signals[n]).c_str(),
           sgs->msg.Signals[n].NameFloat.c_str());
       }
     }
diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index f95fd26..93924e7 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -89,14 +89,14 @@ std::string CSigPrinter::PrintPhysicalToRaw(const SignalDescriptor_t* sig, const
 
   if (sig->IsDoubleSig)
   {
-    retstr += StrPrint("#define %s_%s_CovFactor (%s)\n", drvname.c_str(), sig->Name.c_str(), prtFactor.c_str());
+    retstr += StrPrint("#define %s_%s_CovFactor (%s)\n", drvname.c_str(), sig->NameConv.c_str(), prtFactor.c_str());
   }
   else
   {
-    retstr += StrPrint("#define %s_%s_CovFactor (%lld)\n", drvname.c_str(), sig->Name.c_str(), (long long)sig->Factor);
+    retstr += StrPrint("#define %s_%s_CovFactor (%lld)\n", drvname.c_str(), sig->NameConv.c_str(), (long long)sig->Factor);
   }
 
-  retstr += StrPrint("#define %s_%s_toS(x) ( (%s) ", drvname.c_str(), sig->Name.c_str(),
+  retstr += StrPrint("#define %s_%s_toS(x) ( (%s) ", drvname.c_str(), sig->NameConv.c_str(),
     PrintType((uint8_t)sig->TypeRo).c_str());
 
   if (sig->IsDoubleSig)
@@ -122,7 +122,7 @@ std::string CSigPrinter::PrintPhysicalToRaw(const SignalDescriptor_t* sig, const
     }
   }
 
-  retstr += StrPrint("#define %s_%s_fromS(x) ( ", drvname.c_str(), sig->Name.c_str());
+  retstr += StrPrint("#define %s_%s_fromS(x) ( ", drvname.c_str(), sig->NameConv.c_str());
 
   if (sig->IsDoubleSig)
   {
diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 34245d7..6459b05 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -299,6 +299,7 @@ bool DbcLineParser::ParseSignalLine(SignalDescriptor_t* sig, const std::string&
       // must behave as ReadOnly (_ro)
       sig->NameFloat = sig->Name + "_phys";
       sig->Name += "_ro";
+      sig->NameConv = sig->Name;
     }
   }
 
diff --git a/src/types/message.h b/src/types/message.h
index 7d50c29..22557de 100644
--- a/src/types/message.h
+++ b/src/types/message.h
@@ -39,6 +39,9 @@ typedef struct
   std::string Name;
   // Signal float name
   std::string NameFloat;
+  // Name used in the names of conversion macros (*_toS, *_fromS), it differs
+  // from signal name if another frame has the same named signal with different scaling
+  std::string NameConv;
   // Unit
   std::string Unit;
 
-- 
2.43.0


From 365dc3e8e9055259f573b96d0d21c2d003d10391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:50 +0000
Subject: [PATCH 08/35] fix: check DLC and id of message before narrowing them

---
 src/parser/dbclineparser.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 6459b05..918a6b0 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -135,15 +135,19 @@ bool DbcLineParser::ParseMessageLine(MessageDescriptor_t* msg, const std::string
 
   msg->Name = items[2];
 
-  msg->MsgID = static_cast<uint32_t>(atoll(items[1].c_str()));
+  // check the values before they are narrowed to the message fields
+  const long long id = atoll(items[1].c_str());
+  const long long dlc = atoll(items[4].c_str());
 
-  msg->DLC = atoi(items[4].c_str());
-
-  if ((msg->MsgID & 0x60000000) != 0 || msg->DLC == 0 || msg->DLC > CONF_LIMIT_MAX_DLC)
+  if (id > UINT_MAX || (id & 0x60000000) != 0 || dlc <= 0 || dlc > CONF_LIMIT_MAX_DLC)
   {
     return false;
   }
 
+  msg->MsgID = static_cast<uint32_t>(id);
+
+  msg->DLC = static_cast<uint8_t>(dlc);
+
   msg->IsExt = ((uint8_t)(msg->MsgID >> 29) & 0x04) == 0x04 ? 1 : 0;
 
   msg->MsgID = clear_msgid(msg->MsgID);
-- 
2.43.0


From 652c199f35318ecc6d0742724928e32329dd7d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:02 +0000
Subject: [PATCH 09/35] fix: do not drop signals with ' : ' inside of the unit
 text

---
 src/parser/dbclineparser.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 918a6b0..51c87ee 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -187,14 +187,16 @@ bool DbcLineParser::IsSignalLine(const std::string& line)
 
 bool DbcLineParser::ParseSignalLine(SignalDescriptor_t* sig, const std::string& line)
 {
-  // split line in two parts
-  auto halfs = resplit(line, kRegSigSplit1, -1);
+  // split line in two parts by the first delimiter (next ones may be met inside of unit text)
+  std::smatch delim;
 
-  if (halfs.size() < 2)
+  if (!std::regex_search(line, delim, std::regex(kRegSigSplit1)))
   {
     return false;
   }
 
+  std::vector<std::string> halfs{delim.prefix().str(), delim.suffix().str()};
+
   // split tail
   auto tailpart = resplit(halfs[1], kregSigSplit2, -1);
 
-- 
2.43.0


From 5a0961041645bcf5b05c350dd58326bdfd79d075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:05 +0000
Subject: [PATCH 10/35] fix: do not take the text of multi-line comments for
 other statements

---
 src/parser/dbclineparser.cpp |  2 +-
 src/parser/dbcscanner.cpp    | 60 ++++++++++++++++++++++++++++++++----
 2 files changed, 55 insertions(+), 7 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 51c87ee..55c3198 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -180,7 +180,7 @@ uint32_t DbcLineParser::ParseMultiTrans(std::vector<std::string>& outnodes, std:
 
 bool DbcLineParser::IsSignalLine(const std::string& line)
 {
-  const std::regex sigMatch("\\s+SG_");
+  const std::regex sigMatch("^\\s+SG_\\s");
   bool ret = std::regex_search(line, sigMatch);
   return ret;
 }
diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 90504e1..fb8e8e3 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -31,6 +31,58 @@ MessageDescriptor_t* find_message(vector<MessageDescriptor_t*> msgs, uint32_t ID
   return ret;
 }
 
+/// @brief Checks if the quoted text is still open at the end of the line
+/// @param line Line to check
+/// @param open TRUE if the text was opened before this line
+/// @return TRUE if the text goes on in the next line
+static bool IsTextOpen(const std::string& line, bool open)
+{
+  for (size_t i = 0; i < line.size(); i++)
+  {
+    if (line[i] != '"')
+    {
+      continue;
+    }
+
+    // escaped quote is a part of the text unless the statement ends right after it
+    if (open && i > 0 && line[i - 1] == '\\' && line.find_first_not_of(" \t;", i + 1) != std::string::npos)
+    {
+      continue;
+    }
+
+    open = !open;
+  }
+
+  return open;
+}
+
+/// @brief Reads next line, the comments and attributes with a multi-line text are read as one line,
+/// so the lines of text can't be taken for the other statements
+static bool ReadStatement(istream& readstrm, std::string& sline)
+{
+  if (!std::getline(readstrm, sline))
+  {
+    return false;
+  }
+
+  sline = str_trim(sline);
+
+  if (sline.find("CM_") == 0 || sline.find("BA_") == 0)
+  {
+    std::string next;
+    bool open = IsTextOpen(sline, false);
+
+    while (open && std::getline(readstrm, next))
+    {
+      next = next.empty() ? next : str_trim(next);
+      open = IsTextOpen(next, open);
+      sline += '\n' + next;
+    }
+  }
+
+  return true;
+}
+
 DbcScanner::DbcScanner()
 {
   dblist.maxDlcValue = 0u;
@@ -71,10 +123,8 @@ void DbcScanner::ParseMessageInfo(istream& readstrm)
 
   MessageDescriptor_t* pMsg = nullptr;
 
-  while (std::getline(readstrm, sline))
+  while (ReadStatement(readstrm, sline))
   {
-    sline = str_trim(sline);
-
     FindVersion(sline);
 
     // New message line has been found
@@ -160,10 +210,8 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
 
   AttributeDescriptor_t attr;
 
-  while (std::getline(readstrm, sline))
+  while (ReadStatement(readstrm, sline))
   {
-    sline = str_trim(sline);
-
     if (lparser.ParseCommentLine(&cmmnt, sline))
     {
       // update message comment field
-- 
2.43.0


From 02fa289e356617c5e258e1b5075e03e485e3144f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:37 +0000
Subject: [PATCH 11/35] fix: do not attach annotations of unknown messages to
 the last message

---
 src/parser/dbcscanner.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index fb8e8e3..44e7fbe 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -10,25 +10,16 @@
 
 MessageDescriptor_t* find_message(vector<MessageDescriptor_t*> msgs, uint32_t ID)
 {
-  MessageDescriptor_t* ret = nullptr;
-
-  if (msgs.size() == 0)
-  {
-    return ret;
-  }
-
   for (size_t i = 0; i < msgs.size(); i++)
   {
-    ret = msgs[i];
-
-    if (ret->MsgID == ID)
+    if (msgs[i]->MsgID == ID)
     {
       // Frame found
-      break;
+      return msgs[i];
     }
   }
 
-  return ret;
+  return nullptr;
 }
 
 /// @brief Checks if the quoted text is still open at the end of the line
-- 
2.43.0


From 64c13c4190b14d11ac09e108af944959d272f9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:47 +0000
Subject: [PATCH 12/35] fix: accept additional transmitters of the message with
 id 0

---
 src/parser/dbclineparser.cpp | 17 +++++++----------
 src/parser/dbclineparser.h   |  5 +++--
 src/parser/dbcscanner.cpp    |  4 ++--
 3 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 55c3198..f1ad37b 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -155,26 +155,23 @@ bool DbcLineParser::ParseMessageLine(MessageDescriptor_t* msg, const std::string
   return true;
 }
 
-uint32_t DbcLineParser::ParseMultiTrans(std::vector<std::string>& outnodes, std::string& line)
+bool DbcLineParser::ParseMultiTrans(uint32_t& msgid, std::vector<std::string>& outnodes, std::string& line)
 {
-  uint32_t ret = 0;
-
   auto chunks = resplit(line, kTransmittersList, -1);
 
   if (chunks.size() >= 3 && chunks[0] == "BO_TX_BU_")
   {
-    ret = clear_msgid(static_cast<uint32_t>(atoll(chunks[1].c_str())));
+    msgid = clear_msgid(static_cast<uint32_t>(atoll(chunks[1].c_str())));
 
-    if (ret != 0)
+    for (size_t i = 2; i < chunks.size(); i++)
     {
-      for (size_t i = 2; i < chunks.size(); i++)
-      {
-        outnodes.push_back(chunks[i]);
-      }
+      outnodes.push_back(chunks[i]);
     }
+
+    return true;
   }
 
-  return ret;
+  return false;
 }
 
 
diff --git a/src/parser/dbclineparser.h b/src/parser/dbclineparser.h
index 9b0c025..c676a50 100644
--- a/src/parser/dbclineparser.h
+++ b/src/parser/dbclineparser.h
@@ -72,11 +72,12 @@ class DbcLineParser {
   /**
    * @brief tries to find string with information about frame which has
    * multiple TX nodes
+   * @param msgid id of the frame
    * @param outnodes vector to load names of TX nodes
    * @param str line to parse from DBC file
-   * @retval MsgId if parsed successfully or zero
+   * @retval true if parsed successfully
    */
-  uint32_t ParseMultiTrans(std::vector<std::string>& outnodes, std::string& str);
+  bool ParseMultiTrans(uint32_t& msgid, std::vector<std::string>& outnodes, std::string& str);
 
  private:
   // defines the type for the message struct member
diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 44e7fbe..83efcec 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -160,9 +160,9 @@ void DbcScanner::ParseMessageInfo(istream& readstrm)
     std::vector<std::string> tx_nodes;
     tx_nodes.clear();
 
-    uint32_t msgid = lparser.ParseMultiTrans(tx_nodes, sline);
+    uint32_t msgid = 0;
 
-    if (msgid != 0)
+    if (lparser.ParseMultiTrans(msgid, tx_nodes, sline))
     {
       // In this place no messages will captured after,
       // so put temp pMsg as last message and null it
-- 
2.43.0


From 8367ecb7c04473c1bea5948e6f353894f4ecd4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:23 +0000
Subject: [PATCH 13/35] fix: tell standard and extended messages with the same
 id apart

---
 src/app.cpp                      | 6 +++---
 src/codegen/c-util-generator.cpp | 6 +++---
 src/parser/dbclineparser.cpp     | 9 ++++-----
 src/parser/dbcscanner.cpp        | 2 +-
 src/types/message.h              | 7 +++++++
 5 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/app.cpp b/src/app.cpp
index 4810d9b..19f6aa5 100644
--- a/src/app.cpp
+++ b/src/app.cpp
@@ -215,7 +215,7 @@ void CoderApp::GenerateCode()
         if (found)
         {
           // Message is in Tx array of current node
-          groups.Tx.push_back(m->MsgID);
+          groups.Tx.push_back(FullMsgId(*m));
         }
 
         found = (std::find(m->RecS.begin(), m->RecS.end(), nodes[node]) != m->RecS.end());
@@ -223,7 +223,7 @@ void CoderApp::GenerateCode()
         if (found)
         {
           // Message is in Rx array of current node
-          groups.Rx.push_back(m->MsgID);
+          groups.Rx.push_back(FullMsgId(*m));
         }
       }
 
@@ -239,7 +239,7 @@ void CoderApp::GenerateCode()
 
     for (size_t i = 0; i < scanner.dblist.msgs.size(); i++)
     {
-      groups.Rx.push_back(scanner.dblist.msgs[i]->MsgID);
+      groups.Rx.push_back(FullMsgId(*scanner.dblist.msgs[i]));
     }
 
     if (ret)
diff --git a/src/codegen/c-util-generator.cpp b/src/codegen/c-util-generator.cpp
index 9db35ab..ca4f8b0 100644
--- a/src/codegen/c-util-generator.cpp
+++ b/src/codegen/c-util-generator.cpp
@@ -46,7 +46,7 @@ void CiUtilGenerator::Generate(DbcMessageList_t& dlist, const AppSettings_t& fsd
 
     auto v = std::find_if(groups.Both.begin(), groups.Both.end(), [&](const uint32_t& msgid)
     {
-      return msgid == m->MsgID;
+      return msgid == FullMsgId(*m);
     });
 
     if (v != std::end(groups.Both))
@@ -59,7 +59,7 @@ void CiUtilGenerator::Generate(DbcMessageList_t& dlist, const AppSettings_t& fsd
 
     v = std::find_if(groups.Rx.begin(), groups.Rx.end(), [&](const uint32_t& msgid)
     {
-      return msgid == m->MsgID;
+      return msgid == FullMsgId(*m);
     });
 
     if (v != std::end(groups.Rx))
@@ -69,7 +69,7 @@ void CiUtilGenerator::Generate(DbcMessageList_t& dlist, const AppSettings_t& fsd
 
     v = std::find_if(groups.Tx.begin(), groups.Tx.end(), [&](const uint32_t& msgid)
     {
-      return msgid == m->MsgID;
+      return msgid == FullMsgId(*m);
     });
 
     if (v != std::end(groups.Tx))
diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index f1ad37b..7a6e5fa 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -161,7 +161,7 @@ bool DbcLineParser::ParseMultiTrans(uint32_t& msgid, std::vector<std::string>& o
 
   if (chunks.size() >= 3 && chunks[0] == "BO_TX_BU_")
   {
-    msgid = clear_msgid(static_cast<uint32_t>(atoll(chunks[1].c_str())));
+    msgid = static_cast<uint32_t>(atoll(chunks[1].c_str()));
 
     for (size_t i = 2; i < chunks.size(); i++)
     {
@@ -493,8 +493,7 @@ bool DbcLineParser::ParseCommentLine(Comment_t* cm, const std::string& line)
           // 3 msg id
           uint32_t id = static_cast<uint32_t>(atoll(meta[2].c_str()));
 
-          // clear message id from high 3 bits
-          cm->MsgId = clear_msgid(id);
+          cm->MsgId = id;
 
           if (meta[1] == "SG_" && meta.size() == 4)
           {
@@ -554,7 +553,7 @@ bool DbcLineParser::ParseAttributeLine(AttributeDescriptor_t* attr, const std::s
       if (items.size() > 4 && items[1] == "GenMsgCycleTime" && items[2] == "BO_")
       {
         attr->Type = AttributeType::CycleTime;
-        attr->MsgId = clear_msgid(static_cast<uint32_t>(atoll(items[3].c_str())));
+        attr->MsgId = static_cast<uint32_t>(atoll(items[3].c_str()));
         // read value of ms of cycle time for the current message
         attr->Value = atoi(items[4].c_str());
         ret = true;
@@ -593,7 +592,7 @@ bool DbcLineParser::ParseValTableLine(Comment_t* comm, const std::string& line,
 
       if ((items.size() >= 3) && (items.back() == ";") && (items.size() % 2 == 0))
       {
-        comm->MsgId = (clear_msgid(static_cast<uint32_t>(atoll(items[1].c_str()))));
+        comm->MsgId = static_cast<uint32_t>(atoll(items[1].c_str()));
         comm->SigName = items[2];
         comm->Text = "";
         comm->ca_target = CommentTarget::Signal;
diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 83efcec..fd84f5a 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -12,7 +12,7 @@ MessageDescriptor_t* find_message(vector<MessageDescriptor_t*> msgs, uint32_t ID
 {
   for (size_t i = 0; i < msgs.size(); i++)
   {
-    if (msgs[i]->MsgID == ID)
+    if (FullMsgId(*msgs[i]) == ID)
     {
       // Frame found
       return msgs[i];
diff --git a/src/types/message.h b/src/types/message.h
index 22557de..0962e30 100644
--- a/src/types/message.h
+++ b/src/types/message.h
@@ -156,6 +156,13 @@ typedef struct
 
 } MessageDescriptor_t;
 
+/// @brief Message id as it is written in DBC file (bit 31 is the mark of extended frame)
+/// the standard and extended frames may have the same value of @MsgID
+inline uint32_t FullMsgId(const MessageDescriptor_t& m)
+{
+  return m.MsgID | (m.IsExt ? 0x80000000U : 0U);
+}
+
 typedef struct
 {
   std::vector<uint32_t> Rx;
-- 
2.43.0


From 2a28df6c481c6d8dce6ee139cc54f57894ba7ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:53 +0000
Subject: [PATCH 14/35] fix: do not let a comment that ends with backslash
 swallow the next line of code

---
 src/codegen/c-main-generator.cpp |  4 ++--
 src/helpers/formatter.cpp        | 22 ++++++++++++++++++++++
 src/helpers/formatter.h          |  6 ++++++
 3 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index 06d1adb..cfba79d 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -161,7 +161,7 @@ void CiMainGenerator::Gen_MainHeader()
     if (m.CommentText.size() > 0)
     {
       // replace all '\n' on "\n //" for c code comment text
-      fwriter.Append("// " + std::regex_replace(m.CommentText, std::regex("\n"), "\n// "));
+      fwriter.Append(CommentLines(m.CommentText, "// "));
     }
 
     fwriter.Append("// def @%s CAN Message (%-4d %#x)", m.Name.c_str(), m.MsgID, m.MsgID);
@@ -575,7 +575,7 @@ void CiMainGenerator::WriteSigStructField(const SignalDescriptor_t& sig, bool bi
 {
   if (sig.CommentText.size() > 0)
   {
-    fwriter.Append("  // " + std::regex_replace(sig.CommentText, std::regex("\n"), "\n  // "));
+    fwriter.Append(CommentLines(sig.CommentText, "  // "));
   }
 
   if (sig.ValueText.size() > 0)
diff --git a/src/helpers/formatter.cpp b/src/helpers/formatter.cpp
index fd45a22..0b6d28e 100644
--- a/src/helpers/formatter.cpp
+++ b/src/helpers/formatter.cpp
@@ -104,6 +104,28 @@ std::string str_trim(std::string s)
   return s;
 }
 
+std::string CommentLines(const std::string& text, const std::string& prefix)
+{
+  std::string ret{};
+  std::stringstream lines(text);
+  std::string line{};
+
+  while (std::getline(lines, line))
+  {
+    ret += (ret.empty() ? "" : "\n") + prefix + line;
+
+    const size_t len = line.find_last_not_of(" \t\v\f\r") + 1;
+
+    if ((len >= 1 && line[len - 1] == '\\') || (len >= 3 && line.compare(len - 3, 3, "?\?/") == 0))
+    {
+      // otherwise the next line of code would be appended to the comment
+      ret += " .";
+    }
+  }
+
+  return ret;
+}
+
 template<char L, char U>
 static inline bool in_range(const char c)
 {
diff --git a/src/helpers/formatter.h b/src/helpers/formatter.h
index 163373f..8ee4607 100644
--- a/src/helpers/formatter.h
+++ b/src/helpers/formatter.h
@@ -17,6 +17,12 @@ std::string str_tolower(std::string s);
 
 std::string str_trim(std::string s);
 
+/// @brief Makes the lines of C comment from the text
+/// @param text text of one or many lines
+/// @param prefix beginning of each line
+/// @return string with the lines of comment
+std::string CommentLines(const std::string& text, const std::string& prefix);
+
 /// @brief Function prints double value with dropping tailing zeros
 /// @param value value to format
 /// @param precision maximal precision length
-- 
2.43.0


From faad523b6c49d8a9947aaf387373b9b15eafcb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:54 +0000
Subject: [PATCH 15/35] fix: do not trim non-ASCII characters at the end of
 line

---
 src/helpers/formatter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helpers/formatter.cpp b/src/helpers/formatter.cpp
index 0b6d28e..e382efd 100644
--- a/src/helpers/formatter.cpp
+++ b/src/helpers/formatter.cpp
@@ -87,7 +87,7 @@ std::string str_trim(std::string s)
 
   while (passed < s.size())
   {
-    if (s[s.size() - passed - 1] > ' ')
+    if (static_cast<unsigned char>(s[s.size() - passed - 1]) > ' ')
     {
       break;
     }
-- 
2.43.0


From 1643967043352bc3555551bf40f3d9ff45be0aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:24 +0000
Subject: [PATCH 16/35] fix: attach comments and value tables by the signal
 name of DBC file, also to scaled signals

---
 src/codegen/c-main-generator.cpp | 4 ++--
 src/parser/dbclineparser.cpp     | 1 +
 src/parser/dbcscanner.cpp        | 4 ++--
 src/types/message.h              | 2 ++
 4 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index cfba79d..573f0b2 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -222,7 +222,7 @@ void CiMainGenerator::Gen_MainHeader()
         {
           // The value table definition consists of 'signal name + message name + value definition'
           // This provides reliable way of avoiding issues with same macros names
-          std::string defname = StrPrint("%s_%s_%s", s.Name.c_str(), m.Name.c_str(), s.ValDefs.vpairs[i].first.c_str());
+          std::string defname = StrPrint("%s_%s_%s", s.NameDbc.c_str(), m.Name.c_str(), s.ValDefs.vpairs[i].first.c_str());
 
           // @ifndef guard for the case when different values of table have
           // the same name (it is valid for DBC file format)
@@ -230,7 +230,7 @@ void CiMainGenerator::Gen_MainHeader()
           fwriter.Append("#ifndef %s", defname.c_str());
 
           fwriter.Append("#define %s_%s_%s (%d)",
-            s.Name.c_str(), m.Name.c_str(), s.ValDefs.vpairs[i].first.c_str(),
+            s.NameDbc.c_str(), m.Name.c_str(), s.ValDefs.vpairs[i].first.c_str(),
             s.ValDefs.vpairs[i].second);
 
           fwriter.Append("#endif");
diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 7a6e5fa..8498892 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -205,6 +205,7 @@ bool DbcLineParser::ParseSignalLine(SignalDescriptor_t* sig, const std::string&
   if (halfs.size() >= 2)
   {
     sig->Name = halfs[1];
+    sig->NameDbc = halfs[1];
     sig->Multiplex = MultiplexType::kNone;
 
     if (halfs.size() == 3)
diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index fd84f5a..9b2dad7 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -220,7 +220,7 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
         {
           for (size_t i = 0; i < msg->Signals.size(); i++)
           {
-            if ((cmmnt.SigName == msg->Signals[i].Name) || ((cmmnt.SigName + "_ro") == msg->Signals[i].Name))
+            if (cmmnt.SigName == msg->Signals[i].NameDbc)
             {
               SignalDescriptor_t& sig = msg->Signals[i];
               // signal has been found, update commnet text
@@ -287,7 +287,7 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
         {
           for (size_t i = 0; i < msg->Signals.size(); i++)
           {
-            if (cmmnt.SigName == msg->Signals[i].Name)
+            if (cmmnt.SigName == msg->Signals[i].NameDbc)
             {
               // signal has been found, update commnet text
               msg->Signals[i].ValueText = cmmnt.Text;
diff --git a/src/types/message.h b/src/types/message.h
index 0962e30..fa344bb 100644
--- a/src/types/message.h
+++ b/src/types/message.h
@@ -37,6 +37,8 @@ typedef struct
 {
   // Signal name
   std::string Name;
+  // Signal name as it is written in DBC file
+  std::string NameDbc;
   // Signal float name
   std::string NameFloat;
   // Name used in the names of conversion macros (*_toS, *_fromS), it differs
-- 
2.43.0


From 1de703d953b4a189f736d5e5daec654a5dbd7e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:35 +0000
Subject: [PATCH 17/35] fix: print value definitions above INT_MAX with their
 real value

---
 src/codegen/c-main-generator.cpp | 4 ++--
 src/parser/dbclineparser.cpp     | 2 +-
 src/types/comment.h              | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index 573f0b2..fb46ae6 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -229,9 +229,9 @@ void CiMainGenerator::Gen_MainHeader()
           // For this case only one of same named values will be available as macro
           fwriter.Append("#ifndef %s", defname.c_str());
 
-          fwriter.Append("#define %s_%s_%s (%d)",
+          fwriter.Append("#define %s_%s_%s (%lld)",
             s.NameDbc.c_str(), m.Name.c_str(), s.ValDefs.vpairs[i].first.c_str(),
-            s.ValDefs.vpairs[i].second);
+            (long long)s.ValDefs.vpairs[i].second);
 
           fwriter.Append("#endif");
           fwriter.Append();
diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 8498892..65fd9e1 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -608,7 +608,7 @@ bool DbcLineParser::ParseValTableLine(Comment_t* comm, const std::string& line,
           comm->Text += items[valpair + 1] + '\n';
 
           auto valdef = make_c_name(items[valpair + 1]);
-          vtab.vpairs.push_back({valdef, (uint32_t)atoll((items[valpair + 0]).c_str())});
+          vtab.vpairs.push_back({valdef, (int64_t)atoll((items[valpair + 0]).c_str())});
         }
 
         if (comm->Text.size() > 0)
diff --git a/src/types/comment.h b/src/types/comment.h
index 4af34fe..0d3cf12 100644
--- a/src/types/comment.h
+++ b/src/types/comment.h
@@ -40,6 +40,6 @@ struct ValTable_t
   std::string SigName;
 
   /// @brief Value table names and values pairs
-  std::vector<std::pair<std::string, uint32_t>> vpairs{};
+  std::vector<std::pair<std::string, int64_t>> vpairs{};
 
 };
-- 
2.43.0


From 8972105b27fdb7e212ed3978602f689fed749611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:24 +0000
Subject: [PATCH 18/35] fix: keep the items of value tables and attributes
 apart when the statement goes on in the next line

---
 src/parser/dbclineparser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 65fd9e1..79fe53e 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -541,7 +541,8 @@ bool DbcLineParser::ParseAttributeLine(AttributeDescriptor_t* attr, const std::s
     }
     else if (attribline.size() > 0)
     {
-      attribline += line;
+      // line break separates the items as well as space
+      attribline += ' ' + line;
     }
 
     // check if the current line is last
@@ -580,7 +581,8 @@ bool DbcLineParser::ParseValTableLine(Comment_t* comm, const std::string& line,
     }
     else if (valueline.size() > 0)
     {
-      valueline += line;
+      // line break separates the items as well as space
+      valueline += ' ' + line;
     }
 
     // check if the current line is last
-- 
2.43.0


From 29fb91fb13302df0d08988c4a282aba81340bd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:50 +0000
Subject: [PATCH 19/35] fix: do not ignore transmitters with a single character
 name

---
 src/parser/dbclineparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 79fe53e..e5bb4be 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -128,7 +128,7 @@ bool DbcLineParser::ParseMessageLine(MessageDescriptor_t* msg, const std::string
 
   std::string txname = (items.size() >= 6) ? (items[5]) : ("");
 
-  if (txname.size() > 1)
+  if (!txname.empty())
   {
     msg->TranS.push_back(txname);
   }
-- 
2.43.0


From b03933859c7527c5c1c8b07c0530f7c842ecf56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:36 +0000
Subject: [PATCH 20/35] fix: wrap and compare signed and wide rolling counters
 in the width of the signal

---
 src/codegen/c-main-generator.cpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index fb46ae6..cef844d 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -37,6 +37,25 @@ static std::string ConvCast(const SignalDescriptor_t& sig)
   return (sig.IsDoubleSig || sig.TypeConv.empty()) ? "" : ("(" + sig.TypeConv + ") ");
 }
 
+// returns expression of the next rolling counter value which is wrapped in the signal's width
+static std::string RollNext(const SignalDescriptor_t& sig)
+{
+  const uint64_t mask = (sig.LengthBit < 64) ? ((1ULL << sig.LengthBit) - 1u) : UINT64_MAX;
+  const char* suffix = (sig.LengthBit < 32) ? "U" : "ULL";
+
+  std::string next = StrPrint("(_m->%s + 1%s) & (0x%02llX%s)", sig.Name.c_str(),
+    suffix, (unsigned long long)mask, suffix);
+
+  if (sig.Signed)
+  {
+    // the field of signed signal keeps the value with extended sign
+    next = StrPrint("(%s) %s(( %s ), %d)", PrintType((int)sig.TypeRo).c_str(),
+      ext_sig_func_name, next.c_str(), (int)sig.LengthBit);
+  }
+
+  return next;
+}
+
 void CiMainGenerator::Generate(DbcMessageList_t& dlist, const AppSettings_t& fsd)
 {
   // Load income messages to sig printer
@@ -757,8 +776,8 @@ void CiMainGenerator::WriteUnpackBody(const CiExpr_t* sgs)
     fwriter.Append("#ifdef %s", fdesc->gen.useroll_def.c_str());
     fwriter.Append("  _m->mon1.roll_error = (_m->%s != _m->%s_expt);",
       sgs->msg.RollSig->Name.c_str(), sgs->msg.RollSig->Name.c_str());
-    fwriter.Append("  _m->%s_expt = (_m->%s + 1) & (0x%02XU);", sgs->msg.RollSig->Name.c_str(),
-      sgs->msg.RollSig->Name.c_str(), (1 << sgs->msg.RollSig->LengthBit) - 1);
+    fwriter.Append("  _m->%s_expt = %s;", sgs->msg.RollSig->Name.c_str(),
+      RollNext(*sgs->msg.RollSig).c_str());
     // Put rolling monitor here
     fwriter.Append("#endif // %s", fdesc->gen.useroll_def.c_str());
     fwriter.Append();
@@ -822,8 +841,8 @@ void CiMainGenerator::PrintPackCommonText(const std::string& arrtxt, const CiExp
   if (sgs->msg.RollSig != nullptr)
   {
     fwriter.Append("#ifdef %s", fdesc->gen.useroll_def.c_str());
-    fwriter.Append("  _m->%s = (_m->%s + 1) & (0x%02XU);", sgs->msg.RollSig->Name.c_str(),
-      sgs->msg.RollSig->Name.c_str(), (1 << sgs->msg.RollSig->LengthBit) - 1);
+    fwriter.Append("  _m->%s = %s;", sgs->msg.RollSig->Name.c_str(),
+      RollNext(*sgs->msg.RollSig).c_str());
     fwriter.Append("#endif // %s", fdesc->gen.useroll_def.c_str());
     fwriter.Append();
   }
-- 
2.43.0


From bc6210a73c6a83acb0fb2b28f19fe92ee4c9cbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:14 +0000
Subject: [PATCH 21/35] fix: find the checksum marker wherever it stands in the
 comment

---
 src/parser/dbcscanner.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 9b2dad7..6487024 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -235,15 +235,14 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
 
               extern std::vector<std::string> resplit(const std::string & s, const std::string & rgx_str, int32_t submatch);
 
-              size_t openpos = cmmnt.Text.find('<');
-
-              if (openpos != std::string::npos)
+              // the marker can stand anywhere in the text
+              for (size_t openpos = cmmnt.Text.find('<'); openpos != std::string::npos; openpos = cmmnt.Text.find('<', openpos + 1))
               {
                 size_t closepos = cmmnt.Text.find('>', openpos);
 
                 if ((closepos != std::string::npos) && (closepos > (openpos + 1)))
                 {
-                  auto substr = cmmnt.Text.substr(openpos + 1, closepos - 1);
+                  auto substr = cmmnt.Text.substr(openpos + 1, closepos - openpos - 1);
 
                   auto meta = resplit(substr, "(\\:)", -1);
 
-- 
2.43.0


From b14677db2719e23bd79283a521e080b3810b5592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:26 +0000
Subject: [PATCH 22/35] fix: do not take a signal that leaves byte 0 for a
 checksum

---
 src/parser/dbcscanner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 6487024..eff8692 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -252,7 +252,7 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
                     // checked: size, boundary, signal type
                     bool boundary_ok = (sig.Order == BitLayout::kIntel) ?
                       ((sig.StartBit / 8) == ((sig.StartBit + sig.LengthBit - 1) / 8)) :
-                      ((sig.StartBit / 8) == ((sig.StartBit - sig.LengthBit + 1) / 8));
+                      ((sig.StartBit % 8) + 1 >= sig.LengthBit);
 
                     if (sig.IsSimpleSig && boundary_ok && sig.Signed == false)
                     {
-- 
2.43.0


From 09212e1dd26434a5731c65fc06f1e434028c2d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:29 +0000
Subject: [PATCH 23/35] fix: allow the checksum in the bytes above 7

---
 src/codegen/c-sigprinter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index 93924e7..187cd6c 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -188,11 +188,11 @@ int32_t CSigPrinter::BuildCConvertExprs(CiExpr_t* msgprinter)
 
   if (msgprinter->msg.CsmSig != nullptr)
   {
-    std::vector<std::string> v(8);
+    std::vector<std::string> v(msgprinter->msg.DLC);
 
     PrintSignalExpr(msgprinter->msg.CsmSig, v);
 
-    for (uint8_t i = 0; i < v.size() && i < 8; i++)
+    for (uint8_t i = 0; i < v.size(); i++)
     {
       if (v[i].size() > 0)
       {
-- 
2.43.0


From 816b38dcefa0b30a801669037d94f3f893f22dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:32 +0000
Subject: [PATCH 24/35] fix: do not declare the physical value twice for scaled
 rolling counters

---
 src/codegen/c-main-generator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index cef844d..c7e85ac 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -274,6 +274,8 @@ void CiMainGenerator::Gen_MainHeader()
       rollsig = (*m.RollSig);
       rollsig.CommentText = "";
       rollsig.Name += "_expt";
+      // only the raw value is expected, it has no physical value of its own
+      rollsig.IsSimpleSig = true;
     }
 
     for (size_t signum = 0; signum < m.Signals.size(); signum++)
-- 
2.43.0


From 7479bd12b926fd6c20c97945481b4d9afa64cf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:45 +0000
Subject: [PATCH 25/35] fix: refuse signals that do not fit the frame instead
 of coding other bits

---
 src/codegen/c-sigprinter.cpp | 40 +++++++++++++++++++-----------------
 src/parser/dbclineparser.cpp |  9 ++++++--
 2 files changed, 28 insertions(+), 21 deletions(-)

diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index 187cd6c..ac7ab50 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -43,6 +43,21 @@ static void MarkSignalBits(const SignalDescriptor_t* sig, std::vector<uint8_t>&
   }
 }
 
+// checks that all the bits of the signal are placed inside of the frame's payload
+static bool IsSignalInside(const SignalDescriptor_t* sig, size_t bytes)
+{
+  if (sig->LengthBit < 1 || sig->LengthBit > 64)
+  {
+    return false;
+  }
+
+  // number of payload bits passed before the first bit of signal
+  const uint64_t passed = (sig->Order == BitLayout::kIntel) ? sig->StartBit :
+    ((sig->StartBit / 8) * 8 + (7 - sig->StartBit % 8));
+
+  return (passed + sig->LengthBit) <= (bytes * 8);
+}
+
 CSigPrinter::CSigPrinter()
 {
   sigs_expr.clear();
@@ -217,17 +232,7 @@ std::string CSigPrinter::PrintSignalExpr(const SignalDescriptor_t* sig, std::vec
     return "Error in DBC file !!!! Dlc of this message must be greater.";
   }
 
-  uint16_t startb = (uint16_t)((sig->Order == BitLayout::kIntel) ?
-    (sig->StartBit + (sig->LengthBit - 1)) : (sig->StartBit));
-
-  if (startb > CONF_LIMIT_HIGHEST_BIT_POSITION)
-  {
-    startb = CONF_LIMIT_HIGHEST_BIT_POSITION;
-  }
-
-  uint32_t bn = (startb / 8);
-
-  if (to_bytes.size() <= bn)
+  if (!IsSignalInside(sig, to_bytes.size()))
   {
     // DLC from message doesn't fit to signal layout
     // make code uncomplilable
@@ -235,6 +240,11 @@ std::string CSigPrinter::PrintSignalExpr(const SignalDescriptor_t* sig, std::vec
     return to_bytes[0];
   }
 
+  uint16_t startb = (uint16_t)((sig->Order == BitLayout::kIntel) ?
+    (sig->StartBit + (sig->LengthBit - 1)) : (sig->StartBit));
+
+  uint32_t bn = (startb / 8);
+
   // set valid to_byte prefix
   int32_t bbc = (startb % 8) + 1;
   int32_t slen = sig->LengthBit;
@@ -280,14 +290,6 @@ std::string CSigPrinter::PrintSignalExpr(const SignalDescriptor_t* sig, std::vec
 
       bn = ShiftByte(sig, bn);
 
-      if (to_bytes.size() < bn)
-      {
-        // DLC from message doesn't fit to signal layout
-        // make code uncomplilable
-        to_bytes[0] = "Error in DBC file !!!! Dlc of this message must be greater.";
-        return to_bytes[0];
-      }
-
       tosigexpr += " | ";
 
       if (slen == 0)
diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index e5bb4be..30ca4f4 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -233,8 +233,13 @@ bool DbcLineParser::ParseSignalLine(SignalDescriptor_t* sig, const std::string&
   }
   else
   {
-    sig->StartBit = atoi(valpart[0].c_str());
-    sig->LengthBit = atoi(valpart[1].c_str());
+    // check the values before they are narrowed to the signal fields, the values
+    // which can't fit any frame are left out of range
+    const long long start = atoll(valpart[0].c_str());
+    const long long length = atoll(valpart[1].c_str());
+
+    sig->StartBit = (start < 0 || start > USHRT_MAX) ? USHRT_MAX : static_cast<uint32_t>(start);
+    sig->LengthBit = (length < 1 || length > 64) ? 0 : static_cast<uint8_t>(length);
 
     // get info about factor or offset double nature
     sig->IsDoubleSig = false;
-- 
2.43.0


From e75a1e991afed73b19a6af3783f65afff1ab8e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:10 +0000
Subject: [PATCH 26/35] fix: do not fail on long names of rolling counters

---
 src/codegen/c-main-generator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index c7e85ac..c6abefd 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -626,7 +626,9 @@ void CiMainGenerator::WriteSigStructField(const SignalDescriptor_t& sig, bool bi
 
   std::string pad = " ";
 
-  dtype += pad.insert(0, padwidth + 16 - dtype.size(), ' ');
+  // the name of expected rolling counter value can be longer than the signal names
+  const size_t width = std::max(padwidth + 16, dtype.size());
+  dtype += pad.insert(0, width - dtype.size(), ' ');
 
   fwriter.AppendText(dtype);
 
-- 
2.43.0


From b6603ee8f6cc8ebfa41809c1c4b79fadbd3e38db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:49 +0000
Subject: [PATCH 27/35] fix: put the files of a generation into its own
 directory

---
 src/codegen/fs-creator.cpp | 125 +++++++++++++++++--------------------
 src/codegen/fs-creator.h   |   2 +
 2 files changed, 60 insertions(+), 67 deletions(-)

diff --git a/src/codegen/fs-creator.cpp b/src/codegen/fs-creator.cpp
index 944bce9..807b39f 100644
--- a/src/codegen/fs-creator.cpp
+++ b/src/codegen/fs-creator.cpp
@@ -25,39 +25,12 @@ void FsCreator::Configure(const std::string& drvname,
   uint32_t highVer,
   uint32_t lowVer)
 {
-  FS.file.libdir = outpath + kLibDir;
-  FS.file.usrdir = outpath + kUsrDir;
-  FS.file.incdir = outpath + kIncDir;
-  FS.file.confdir = outpath + kConfDir;
-  FS.file.utildir = outpath + kUtilDir;
   // directory valid and exists, set all the values
   FS.gen.DrvName_orig = drvname;
   FS.gen.DRVNAME = str_toupper(drvname);
   FS.gen.drvname = str_tolower(drvname);
 
-  FS.file.core_h.dir = outpath;
-  FS.file.core_h.fname = FS.gen.drvname + ".h";
-  FS.file.core_h.fpath = FS.file.libdir + "/" + FS.file.core_h.fname;
-
-  FS.file.core_c.dir = outpath;
-  FS.file.core_c.fname = FS.gen.drvname + ".c";
-  FS.file.core_c.fpath = FS.file.libdir + "/" + FS.file.core_c.fname;
-
-  FS.file.util_h.dir = outpath;
-  FS.file.util_h.fname = FS.gen.drvname + "-binutil" + ".h";
-  FS.file.util_h.fpath = FS.file.utildir + "/" + FS.file.util_h.fname;
-
-  FS.file.util_c.dir = outpath;
-  FS.file.util_c.fname = FS.gen.drvname + "-binutil" + ".c";
-  FS.file.util_c.fpath = FS.file.utildir + "/" + FS.file.util_c.fname;
-
-  FS.file.fmon_h.dir = outpath;
-  FS.file.fmon_h.fname = FS.gen.drvname + "-fmon.h";
-  FS.file.fmon_h.fpath = FS.file.libdir + "/" + FS.file.fmon_h.fname;
-
-  FS.file.fmon_c.dir = outpath;
-  FS.file.fmon_c.fname = FS.gen.drvname + "-fmon.c";
-  FS.file.fmon_c.fpath = FS.file.usrdir + "/" + FS.file.fmon_c.fname;
+  SetOutPath(outpath);
 
   snprintf(_tmpb, kTmpLen, "%s_USE_BITS_SIGNAL", FS.gen.DRVNAME.c_str());
   FS.gen.usebits_def = _tmpb;
@@ -93,68 +66,86 @@ void FsCreator::Configure(const std::string& drvname,
   FS.gen.lowver = lowVer;
 }
 
+void FsCreator::SetOutPath(const std::string& outpath)
+{
+  FS.file.libdir = outpath + kLibDir;
+  FS.file.usrdir = outpath + kUsrDir;
+  FS.file.incdir = outpath + kIncDir;
+  FS.file.confdir = outpath + kConfDir;
+  FS.file.utildir = outpath + kUtilDir;
+
+  FS.file.core_h.dir = outpath;
+  FS.file.core_h.fname = FS.gen.drvname + ".h";
+  FS.file.core_h.fpath = FS.file.libdir + "/" + FS.file.core_h.fname;
+
+  FS.file.core_c.dir = outpath;
+  FS.file.core_c.fname = FS.gen.drvname + ".c";
+  FS.file.core_c.fpath = FS.file.libdir + "/" + FS.file.core_c.fname;
+
+  FS.file.util_h.dir = outpath;
+  FS.file.util_h.fname = FS.gen.drvname + "-binutil" + ".h";
+  FS.file.util_h.fpath = FS.file.utildir + "/" + FS.file.util_h.fname;
+
+  FS.file.util_c.dir = outpath;
+  FS.file.util_c.fname = FS.gen.drvname + "-binutil" + ".c";
+  FS.file.util_c.fpath = FS.file.utildir + "/" + FS.file.util_c.fname;
+
+  FS.file.fmon_h.dir = outpath;
+  FS.file.fmon_h.fname = FS.gen.drvname + "-fmon.h";
+  FS.file.fmon_h.fpath = FS.file.libdir + "/" + FS.file.fmon_h.fname;
+
+  FS.file.fmon_c.dir = outpath;
+  FS.file.fmon_c.fname = FS.gen.drvname + "-fmon.c";
+  FS.file.fmon_c.fpath = FS.file.usrdir + "/" + FS.file.fmon_c.fname;
+}
+
 bool FsCreator::PrepareDirectory(bool rw)
 {
   bool ret = false;
 
-  // find free directory
-  struct stat info;
-
+  std::error_code err;
   std::string work_dir_path;
-  const auto& basepath = FS.file.core_h.dir;
+  const std::string basepath = FS.file.core_h.dir;
+
+  // the driver's own directory may be absent
+  std::filesystem::create_directories(basepath, err);
 
   if (rw)
   {
-    work_dir_path = basepath;
-    ret = true;
-
     // for this case check only if directory exists
-    if (stat(work_dir_path.c_str(), &info) != 0)
-    {
-      if (!std::filesystem::create_directory(work_dir_path))
-      {
-        ret = false;
-      }
-    }
+    work_dir_path = basepath;
+    ret = std::filesystem::is_directory(basepath, err);
   }
   else
   {
-    std::string separator = basepath.back() == '/' ? "" : "/";
+    std::string separator = (!basepath.empty() && basepath.back() == '/') ? "" : "/";
 
+    // find free directory
     for (int32_t dirnum = 0; dirnum < 1000; dirnum++)
     {
       snprintf(_tmpb, kTmpLen, "%03d", dirnum);
       work_dir_path = basepath + separator + _tmpb;
 
-      if (stat(work_dir_path.c_str(), &info) != 0)
-      {
-        if (std::filesystem::create_directory(work_dir_path))
-        {
-          ret = true;
-          break;
-        }
-      }
-      else if (info.st_mode & S_IFDIR)
+      // the number is free only if the directory has been created right now
+      if (std::filesystem::create_directory(work_dir_path, err))
       {
-        // directory exists, try next num
-        continue;
-      }
-      else
-      {
-        if (std::filesystem::create_directory(work_dir_path) != 0)
-        {
-          ret = false;
-          break;
-        }
+        ret = true;
+        break;
       }
     }
   }
 
-  std::filesystem::create_directory(FS.file.libdir);
-  std::filesystem::create_directory(FS.file.usrdir);
-  std::filesystem::create_directory(FS.file.incdir);
-  std::filesystem::create_directory(FS.file.confdir);
-  std::filesystem::create_directory(FS.file.utildir);
+  if (ret)
+  {
+    // all the files must be placed inside of the working directory
+    SetOutPath(work_dir_path);
+
+    std::filesystem::create_directory(FS.file.libdir, err);
+    std::filesystem::create_directory(FS.file.usrdir, err);
+    std::filesystem::create_directory(FS.file.incdir, err);
+    std::filesystem::create_directory(FS.file.confdir, err);
+    std::filesystem::create_directory(FS.file.utildir, err);
+  }
 
   return ret;
 }
diff --git a/src/codegen/fs-creator.h b/src/codegen/fs-creator.h
index 5ebb59e..bb7b253 100644
--- a/src/codegen/fs-creator.h
+++ b/src/codegen/fs-creator.h
@@ -83,5 +83,7 @@ class FsCreator {
 
   AppSettings_t FS;
 
+ private:
+  void SetOutPath(const std::string& outpath);
 };
 
-- 
2.43.0


From e2fd3809e324c2cb0ab28d6023a6dd2f6771bf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:18 +0000
Subject: [PATCH 28/35] fix: do not take an option without value for a given
 path

---
 src/options-parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/options-parser.cpp b/src/options-parser.cpp
index ee77391..a5511b2 100644
--- a/src/options-parser.cpp
+++ b/src/options-parser.cpp
@@ -37,12 +37,12 @@ OptionsParser::GenOptions OptionsParser::GetOptions(int argc, char** argv)
     if (temppairs[i].first.compare("-dbc") == 0)
     {
       retpairs.dbc.first = temppairs[i].second;
-      retpairs.dbc.second = true;
+      retpairs.dbc.second = !temppairs[i].second.empty();
     }
     else if (temppairs[i].first.compare("-out") == 0)
     {
       retpairs.outdir.first = temppairs[i].second;
-      retpairs.outdir.second = true;
+      retpairs.outdir.second = !temppairs[i].second.empty();
     }
     else if (temppairs[i].first.compare("-drvname") == 0)
     {
-- 
2.43.0


From 0e817f9a0b96e8df7450051491206bc30778977b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:08 +0000
Subject: [PATCH 29/35] fix: do not put the text of a file that can't be
 written into the next file

---
 src/codegen/filewriter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/codegen/filewriter.cpp b/src/codegen/filewriter.cpp
index 3dec1be..6d4675d 100644
--- a/src/codegen/filewriter.cpp
+++ b/src/codegen/filewriter.cpp
@@ -27,6 +27,8 @@ static std::string __print_loc__(const char* format, va_list args)
 
 void FileWriter::Flush()
 {
+  // drop the text (it is not consumed when the file can't be written) and the state of the stream
+  strm.str("");
   strm.clear();
 }
 
-- 
2.43.0


From a396864ce650d9385b38732e9329ea2bd7f565ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 30/35] fix: do not end with an exception on version numbers
 that are out of range

---
 src/parser/dbcscanner.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index eff8692..dea1868 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -4,6 +4,9 @@
 #include <regex>
 #include <cstring>
 #include <cctype>
+#include <cerrno>
+#include <cstdint>
+#include <cstdlib>
 #include <sstream>
 #include <iostream>
 #include "../helpers/formatter.h"
@@ -394,8 +397,19 @@ static bool ParseVersionLine(const std::string& line, std::string& str, uint32_t
     {
       // 1 for the whole match and 3 for the capture groups
       str = matches[1].str();
-      num1 = std::stoul(matches[2].str());
-      num2 = std::stoul(matches[3].str());
+
+      // the values that are out of range can't be taken as version
+      errno = 0;
+      const unsigned long long hi = std::strtoull(matches[2].str().c_str(), nullptr, 10);
+      const unsigned long long low = std::strtoull(matches[3].str().c_str(), nullptr, 10);
+
+      if (errno == ERANGE || hi > UINT32_MAX || low > UINT32_MAX)
+      {
+        return false;
+      }
+
+      num1 = static_cast<uint32_t>(hi);
+      num2 = static_cast<uint32_t>(low);
       // successfully matched all three parts
       return true;
     }
-- 
2.43.0


From 0203d15ba6456550e7d97fbf7424e016bceaaae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:53 +0000
Subject: [PATCH 31/35] fix: do not let a carriage return inside of a text
 break the generated comment line

---
 src/parser/dbcscanner.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index dea1868..80a46d1 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -74,6 +74,9 @@ static bool ReadStatement(istream& readstrm, std::string& sline)
     }
   }
 
+  // single carriage return inside of the text would be a new line for the compiler
+  std::replace(sline.begin(), sline.end(), '\r', ' ');
+
   return true;
 }
 
-- 
2.43.0


From 360cafd9cab29e3f1d5cfbe3a0435efe0d5fcc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:11 +0000
Subject: [PATCH 32/35] fix: do not let a line break in the name of DBC file
 break the generated comment

---
 src/app.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/app.cpp b/src/app.cpp
index 19f6aa5..c231e8f 100644
--- a/src/app.cpp
+++ b/src/app.cpp
@@ -105,6 +105,8 @@ void CoderApp::GenerateCode()
   file.close();
 
   auto filename = ExtractFileName(Params.dbc.first);
+  // line breaks in the name would end the comment line which the name is printed in
+  std::replace_if(filename.begin(), filename.end(), [](char c) { return c == '\n' || c == '\r'; }, '_');
   // get current time
   std::time_t now = std::time(nullptr);
   // convert to local time
-- 
2.43.0


From 42b4a018241968b2bb2580607bf673741b462a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:20 +0000
Subject: [PATCH 33/35] fix: factor and offset beyond the range of int are
 wrong in the comments of the header

The conversion of a double to int is undefined beyond its range, so the comment of a signal with factor 4294967296 named another one.
---
 src/codegen/c-main-generator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index c6abefd..49f4c83 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -665,14 +665,14 @@ void CiMainGenerator::WriteSigStructField(const SignalDescriptor_t& sig, bool bi
     {
       infocmnt = IndentedString(offset, infocmnt);
       offset += 27;
-      infocmnt += StrPrint(" Offset= %d", (int)sig.Offset);
+      infocmnt += StrPrint(" Offset= %lld", (long long)sig.Offset);
     }
 
     if (sig.Factor != 1)
     {
       infocmnt = IndentedString(offset, infocmnt);
       offset += 24;
-      infocmnt += StrPrint(" Factor= %d", (int)sig.Factor);
+      infocmnt += StrPrint(" Factor= %lld", (long long)sig.Factor);
     }
   }
 
-- 
2.43.0


From 9f70d799b942883d460ed4dbd3e627b6f2ad55cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:06 +0000
Subject: [PATCH 34/35] fix: do not abort when the path of the DBC file cannot
 be looked up

std::filesystem::exists() without an error_code throws for a directory without permission, a loop of symbolic links or an I/O error.
---
 src/app.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/app.cpp b/src/app.cpp
index c231e8f..395aaaa 100644
--- a/src/app.cpp
+++ b/src/app.cpp
@@ -86,7 +86,9 @@ void CoderApp::GenerateCode()
   std::cout << "gen path : " << Params.outdir.first << std::endl;
   std::cout << "drv name : " << Params.drvname.first << std::endl;
 
-  if (std::filesystem::exists(Params.dbc.first) == false)
+  std::error_code err;
+
+  if (std::filesystem::exists(Params.dbc.first, err) == false)
   {
     std::cout << "DBC file is not exists!" << std::endl;
     return;
-- 
2.43.0


From 6d926fec435d827ff2256f0aac5fc18e3ae7d87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:09 +0000
Subject: [PATCH 35/35] fix: do not generate a driver from a DBC file which
 cannot be read

A read error (a directory given as the DBC file, an I/O error, a pipe that cannot be read twice) was taken for the end of the file, the previous driver was replaced by an incomplete one.
---
 src/app.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/app.cpp b/src/app.cpp
index 395aaaa..34bf0d8 100644
--- a/src/app.cpp
+++ b/src/app.cpp
@@ -103,8 +103,23 @@ void CoderApp::GenerateCode()
     exit(1);
   }
 
-  scanner.TrimDbcText(file);
+  // the text is read only once and completely before anything gets written
+  std::stringstream text;
+  char part[4096];
+
+  while (file.read(part, sizeof(part)) || file.gcount() > 0)
+  {
+    text.write(part, file.gcount());
+  }
+
+  if (file.bad())
+  {
+    std::cerr << "Unable to read DBC file" << std::endl;
+    exit(1);
+  }
+
   file.close();
+  scanner.TrimDbcText(text);
 
   auto filename = ExtractFileName(Params.dbc.first);
   // line breaks in the name would end the comment line which the name is printed in
-- 
2.43.0

