import os
V = os.path.dirname(os.path.abspath(__file__))
ASAN = ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-DRPP_RELWITHDEBINFO_BUILD"]
UB = ["-fsanitize=alignment,bounds,shift,integer-divide-by-zero,bool,unreachable,return", "-fno-sanitize-recover=all"]
from build import TSAN
ILV = TSAN + ["-DRPP_RELEASE_BUILD"]
ILVP = TSAN + ["-DRPP_RELWITHDEBINFO_BUILD"] # with profiling
CAPTURE = ["-Wl,--wrap=" + f for f in "printf fprintf vprintf vfprintf fwrite fputs puts fputc putc putchar fflush".split()] # mc/capture.h
FILES = CAPTURE + ["-Wl,--wrap=" + f for f in "open openat lseek fstat stat ftruncate read pread write pwrite close".split()] # mc/files.h
CHECKS = {
    "C01": [dict(h="C01", flags=ASAN + UB), dict(h="C01n", flags=ASAN + UB)],
    "C02": [dict(h="C02", flags=ASAN + UB), dict(h="C02n", flags=ASAN + UB)],
    "C03": [dict(h="C03", flags=ASAN + UB), dict(h="C03n", flags=ASAN + UB)],
    "C04": [dict(h="C04", flags=ASAN + UB)],
    "T01": [dict(h="T01", flags=ILV, engine="ilv")],
    "T02": [dict(h="T02", flags=ILV, engine="ilv")],
    "T03": [dict(h="T03", flags=ILV, engine="ilv")],
    "T04": [dict(h="T04", flags=ILV, engine="ilv")],
    "T05": [dict(h="T05", flags=ILV, engine="ilv")],
    "T06": [dict(h="T06", flags=ILV, engine="ilv")],
    "T08": [dict(h="T08", flags=ILV, engine="ilv", link=CAPTURE)],
    "M03": [dict(h="M03", flags=ILVP, engine="ilv", link=CAPTURE + ["-Wl,--wrap=exit"])],
    "M04": [dict(h="M04", flags=ILVP, engine="ilv", link=CAPTURE + ["-Wl,--wrap=exit"])],
    "O01": [dict(h="O01", flags=ASAN + UB), dict(h="O01n", flags=ASAN + UB)],
    "O02": [dict(h="O02", flags=ASAN + UB), dict(h="O02n", flags=ASAN + UB), dict(h="O02w", flags=["-O0", "-DRPP_RELWITHDEBINFO_BUILD"])],
    "O03": [dict(h="O03", flags=ASAN + UB)],
    "S01": [dict(h="S01", flags=ASAN + UB)],
    "S02": [dict(h="S02", flags=ASAN + UB)],
    "S03": [dict(h="S03", flags=ASAN + UB)],
    "S04": [dict(h="S04", flags=ASAN + UB)],
    "F01": [dict(h="F01", flags=ASAN + UB, link=FILES)],
    "F02": [dict(h="F02", flags=ASAN + UB, link=FILES)],
    "F03": [dict(h="F03", flags=ASAN + UB, link=CAPTURE + ["-Wl,--wrap=" + f for f in "socket recvfrom sendto bind close".split()])],
    "N01": [dict(h="N01", flags=["-O2", "-DRPP_RELWITHDEBINFO_BUILD", "-fsanitize=signed-integer-overflow"] + UB)],
    "N02": [dict(h="N02", flags=["-O1", "-DRPP_RELWITHDEBINFO_BUILD"] + UB)],
    "N03": [dict(h="N03", flags=ASAN + UB)],
    "P01": [dict(h="P01", flags=ILVP, engine="ilv")],
    "M01": [dict(h="M01", flags=ASAN + UB), dict(h="M01t", flags=ILV, engine="ilv")],
    "M02": [dict(h="M02", flags=ASAN + UB), dict(h="M02t", flags=ILV, engine="ilv")],
}
