"""DBC texts that together cover every feature of the format the generator reads; shared by several checks."""

HEAD = '''VERSION "3.14"


NS_ :
\tNS_DESC_
\tCM_
\tBA_DEF_
\tBA_
\tVAL_
\tBA_DEF_DEF_
\tBO_TX_BU_

BS_:

BU_: Gw Ecu1 Ecu2 T

'''

RICH = HEAD + '''BO_ 100 Plain: 8 Gw
 SG_ A1 : 0|1@1+ (1,0) [0|1] "" Ecu1
 SG_ B3 : 1|3@1- (1,0) [-4|3] "" Ecu1,Ecu2
 SG_ C12 : 4|12@1+ (1,0) [0|4095] "rpm" Ecu2
 SG_ D16 : 23|16@0- (1,0) [0|0] "" Vector__XXX
 SG_ E9 : 39|9@0+ (1,0) [0|0] "" Ecu1
 SG_ F10 : 46|10@0- (1,0) [0|0] "" Ecu1

BO_ 2147549183 ExtScaled: 8 Ecu1
 SG_ Temp : 0|12@1+ (0.1,-40) [-40|369.5] "degC" Gw
 SG_ Speed : 12|12@1- (0.0625,0) [0|0] "km/h" Gw,T
 SG_ Count : 24|8@1+ (5,3) [0|0] "%" Gw
 SG_ Neg : 39|16@0- (-2,7) [0|0] "" Gw
 SG_ Big : 55|16@0+ (1000000,0) [0|0] "" Gw

BO_ 0 Rolling: 8 Gw
 SG_ RC : 0|4@1+ (1,0) [0|15] "" Ecu1
 SG_ X : 4|4@1+ (1,0) [0|15] "" Ecu1
 SG_ Y : 15|16@0+ (1,0) [0|0] "" Ecu2
 SG_ Z : 24|32@1+ (0.5,10) [0|0] "V" Ecu2
 SG_ CS : 56|8@1+ (1,0) [0|255] "" Ecu1

BO_ 1234 Mux: 8 Ecu2
 SG_ Sel M : 0|4@1+ (1,0) [0|15] "" Gw
 SG_ M0a m0 : 8|16@1+ (1,0) [0|0] "" Gw
 SG_ M0b m0 : 24|8@1- (2,1) [0|0] "" Gw
 SG_ M1a m1 : 8|32@1+ (0.001,0) [0|0] "m" Gw
 SG_ M2a m2 : 15|24@0- (1,0) [0|0] "" Gw
 SG_ Tail : 40|24@1+ (1,0) [0|0] "" T

BO_ 2047 Wide: 64 T
 SG_ U64 : 0|64@1+ (1,0) [0|0] "" Gw
 SG_ U33 : 64|33@1+ (1,0) [0|0] "" Gw
 SG_ S31 : 103|31@0- (1,0) [0|0] "" Gw
 SG_ U40 : 143|40@0+ (2,0) [0|0] "" Gw
 SG_ Far : 480|24@1+ (1,0) [0|0] "" Gw
 SG_ FarB : 511|8@0+ (1,0) [0|0] "" Gw

BO_ 5 Empty: 3 Gw

BO_ 2684354559 LastExt: 1 Gw
 SG_ Only : 7|8@0- (1,0) [0|0] "" Ecu1

BO_ 300 Shared: 8 Gw
 SG_ Temp : 0|16@1+ (0.5,0) [0|0] "K" Ecu1
 SG_ RC : 16|3@1- (1,0) [0|0] "" Ecu1
 SG_ A1 : 24|8@1+ (1,0) [0|0] "" Ecu1
 SG_ CRC : 63|4@0+ (1,0) [0|0] "" Ecu1

BO_TX_BU_ 100 : Gw,T;
BO_TX_BU_ 0 : Ecu2;

CM_ "network comment";
CM_ BU_ Gw "the gateway";
CM_ BO_ 100 "Plain frame
with two lines";
CM_ SG_ 100 C12 "Speed of the; engine";
CM_ SG_ 0 RC "<RollingCounter> of the frame";
CM_ SG_ 0 CS "crc: <Checksum:XOR8:3>";
CM_ SG_ 300 RC "<RollingCounter>";
CM_ SG_ 300 CRC "<Checksum:CRC_A:1>";
CM_ SG_ 2147549183 Temp "coolant temperature";
BA_DEF_ BO_ "GenMsgCycleTime" INT 0 65535;
BA_DEF_DEF_ "GenMsgCycleTime" 0;
BA_ "GenMsgCycleTime" BO_ 100 20;
BA_ "GenMsgCycleTime" BO_ 2147549183 1000;
BA_ "GenMsgCycleTime" BO_ 0 5;
VAL_ 100 A1 0 "Off" 1 "On state" ;
VAL_ 1234 Sel 0 "Zero" 1 "One" 15 "Not available" ;
VAL_ 2147549183 Count -1 "Invalid" 254 "Err or" 255 "Err-or" ;
'''


def name(n, c="L"):
    return ("%s_%d_" % (c, n) + "abcdefghijklmnopqrstuvwxyz0123456789" * 8)[:n]


SMALL = {
    "nothing": HEAD,
    "onlyempty": HEAD + 'BO_ 1 E1: 8 Gw\n\nBO_ 2 E2: 1 Ecu1\n\nCM_ BO_ 1 "empty";\nBA_ "GenMsgCycleTime" BO_ 2 10;\n',
    "single": HEAD + 'BO_ 7 One: 1 Gw\n SG_ S : 0|1@1+ (1,0) [0|0] "" Ecu1\n',
    "rollscaled": HEAD + 'BO_ 7 R: 8 Gw\n SG_ RC : 0|4@1+ (2,1) [0|0] "" Ecu1\n SG_ RD : 8|8@1+ (0.5,0) [0|0] "" Ecu1\n\nBO_ 8 R2: 8 Gw\n SG_ RC : 0|4@1+ (0.25,1) [0|0] "" Ecu1\n\nCM_ SG_ 7 RC "<RollingCounter>";\nCM_ SG_ 8 RC "<RollingCounter>";\n',
    "rollcsm": HEAD + 'BO_ 7 R: 2 Gw\n SG_ RC : 0|4@1+ (1,0) [0|0] "" Ecu1\n SG_ CS : 8|8@1+ (1,0) [0|0] "" Ecu1\n\nBO_ 8 Q: 1 Gw\n SG_ RC : 7|1@0- (1,0) [0|0] "" Ecu1\n\nCM_ SG_ 7 RC "<RollingCounter>";\nCM_ SG_ 7 CS "<Checksum:XOR8:0>";\nCM_ SG_ 8 RC "x <RollingCounter>";\n',
    "csmodd": HEAD + 'BO_ 7 R: 8 Gw\n SG_ A : 0|9@1+ (1,0) [0|0] "" Ecu1\n SG_ B : 16|8@1- (1,0) [0|0] "" Ecu1\n SG_ C : 24|8@1+ (2,0) [0|0] "" Ecu1\n\nCM_ SG_ 7 A "<Checksum:XOR8:0>";\nCM_ SG_ 7 B "<Checksum:XOR8:0>";\nCM_ SG_ 7 C "<Checksum:XOR8:0>";\n',
    "wideroll": HEAD + 'BO_ 7 R: 16 Gw\n SG_ RC : 0|64@1+ (1,0) [0|0] "" Ecu1\n SG_ RD : 64|31@1- (1,0) [0|0] "" Ecu1\n\nBO_ 8 R2: 8 Gw\n SG_ RC : 0|33@1- (1,0) [0|0] "" Ecu1\n\nCM_ SG_ 7 RC "<RollingCounter>";\nCM_ SG_ 8 RC "<RollingCounter>";\n',
    "longnames": HEAD + 'BO_ 7 %s: 8 Gw\n SG_ %s : 0|4@1+ (1,0) [0|0] "" Ecu1\n SG_ %s : 8|12@1- (0.5,0) [0|0] "" Ecu1\n SG_ %s : 24|8@1+ (3,0) [0|0] "" Ecu1\n SG_ %s : 56|8@1+ (1,0) [0|0] "" Ecu1\n\nCM_ SG_ 7 %s "<RollingCounter>";\nCM_ SG_ 7 %s "<Checksum:XOR8:3>";\nVAL_ 7 %s 0 "zero" 1 "%s" ;\n' % (
        name(32, "M"), name(32, "r"), name(32, "d"), name(31, "i"), name(32, "c"), name(32, "r"), name(32, "c"), name(32, "r"), "long description " * 8),
    "longernames": HEAD + 'BO_ 7 %s: 8 Gw\n SG_ %s : 0|4@1+ (1,0) [0|0] "" Ecu1\n SG_ %s : 8|12@1- (0.5,0) [0|0] "" Ecu1\n SG_ %s : 24|8@1+ (3,0) [0|0] "" Ecu1\n\nCM_ SG_ 7 %s "<RollingCounter>";\n' % (
        name(128, "M"), name(128, "r"), name(128, "d"), name(128, "i"), name(128, "r")),
    "units": HEAD + "".join('BO_ %d U%d: 8 Gw\n SG_ S : 0|8@1+ (1,0) [0|0] "%s" Ecu1\n SG_ T : 8|8@1+ (0.5,1) [0|0] "%s" Ecu1\n\n' % (k + 1, k, u, u) for k, u in enumerate(
        ("%", "%d%s", "\\", "//", "*/", "/*", "'", "\u00b0C", "m/s^2", "a : b", "(x,y)", "[0|1]", "??/", "; ", "x" * 60))),
    "factors": HEAD + "".join('BO_ %d F%d: 8 Gw\n SG_ S : 0|16@1+ (%s,%s) [0|0] "" Ecu1\n SG_ T : 16|12@1- (%s,%s) [0|0] "" Ecu1\n\n' % (k + 1, k, f, o, f, o) for k, (f, o) in enumerate(
        (("1", "-2147483648"), ("1", "4294967296"), ("-1", "9000000000000000000"), ("1E3", "0"), ("1e10", "1e12"), ("1E18", "0.5"), ("1e25", "-1e25"), ("1e-9", "0"), ("1E-10", "1"), ("-0.001", "100000.5"), ("3", "-7"), ("2", "0.0"),
         ("123456789.123456789", "0"), ("+2", "+3"), ("0.000000001", "-0.000000001"), ("1", "1e-20"), ("4294967295", "4294967295")))),
    "comments": HEAD + 'BO_ 7 C: 8 Gw\n SG_ S : 0|8@1+ (1,0) [0|0] "" Ecu1\n SG_ T : 8|8@1+ (2,0) [0|0] "" Ecu1\n\nCM_ BO_ 7 "*/ /* // \\\n#error x\n??/\n%s %n\n";\nCM_ SG_ 7 S "ends with \\";\nCM_ SG_ 7 T "a\\\nb\n\n\n";\nVAL_ 7 S 0 "a\\" 1 "*/" 2 "??/" 3 "" 4 "%s" ;\n',
    "bits": HEAD + "".join('BO_ %d B%d: 8 Gw\n SG_ U : 0|%d@1+ (1,0) [0|0] "" Ecu1\n SG_ V : %d|%d@1- (1,0) [0|0] "" Ecu1\n SG_ W : 47|%d@0+ (2,-1) [0|0] "" Ecu1\n\n' % (k, k, k, k, k, k) for k in range(1, 21)),
    "nodes": HEAD + 'BO_ 1 A: 8 T\n SG_ S : 0|8@1+ (1,0) [0|0] "" T\n\nBO_ 2 B: 8 Vector__XXX\n SG_ S : 0|8@1+ (1,0) [0|0] "" Vector__XXX\n\nBO_ 3 C: 8 n_1\n\nBO_TX_BU_ 3 : n_1,Other;\nBO_TX_BU_ 2 : T;\n',
}


def parse(text):
    """The frames of a corpus text as model objects (the corpus is written in the usual layout only)."""
    import re
    from dbcmodel import Msg, Sig
    out = []
    for line in text.splitlines():
        m = re.match(r"BO_ (\d+) (\w+) ?: (\d+) (\w+)", line)
        if m:
            i = int(m.group(1))
            out.append(Msg(m.group(2), i & 0x1FFFFFFF, int(m.group(3)), [], bool(i >> 31), m.group(4)))
        m = re.match(r' SG_ (\w+) ?(\w*) : (\d+)\|(\d+)@([01])([+-]) \(([^,]*),([^)]*)\) \[[^\]]*\] "(.*)" (\S+)$', line)
        if m:
            n, mux, s, l, o, sg, f, of, u, rec = m.groups()
            out[-1].sigs.append(Sig(n, int(s), int(l), int(o), sg == "-", f, of, unit=u, rec=tuple(rec.split(",")), mux=mux))
    return out


def marked(text, what):
    """{(frame id, signal)} whose comment carries the marker."""
    import re
    return {(int(m.group(1)), m.group(2)) for m in re.finditer(r'CM_ SG_ (\d+) (\w+) "([^"]*)"', text) if what in m.group(3)}
