import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mck


def body(c):
    san = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
    c.build("config", ["config.cpp"], ["config"], flags=san)
    c.run("config", timeout=840, env={"ASAN_OPTIONS": "abort_on_error=1:handle_segv=0:handle_abort=0:detect_leaks=0", "UBSAN_OPTIONS": "abort_on_error=1"})
    c.assumptions = ["integers with leading zeros (octal) and 64-bit overflow are outside the documented format",
                     "a continuation line counts as one more assignment to the preceding parameter (as ini.h documents)"]
    c.rule = "every sequence of up to 3 (thorough: 4) lines of a 30-line alphabet, every value string of 4 (5) characters of a number-like alphabet, every history of 4 (6) set operations; file and buffer readers"


mck.main("P17", body)
