#!/usr/bin/env python3
"""Writes KNOWN_FINDINGS.json; the fixed entries are documentation and suppress nothing."""
import json
FIXED = [
 ("C01", "d54fd19", "clearing the queue and re-arming it touched its state without the mutex: data race with concurrent push and pop"),
 ("C03", "ac44636", "the pool's stop flag was a plain bool written and read by different threads without synchronisation"),
 ("C03", "4b1606b", "a failing worker creation during start left running workers that stop would not join: terminate at exit"),
 ("C03", "de9de9d", "unknown hardware concurrency (0) made start reserve and create SIZE_MAX workers"),
 ("C04", "9f87847", "skipping the pseudo-random generators did not land on the requested point, so parallel batches reused and missed paths"),
 ("C04", "34dd007", "clones of a generator lost the precision setting"),
 ("C06", "cdf84b6", "failures of simulation tasks were swallowed and the partial result returned; an early exit left tasks running on dead locals"),
 ("C05", "d29b752", "an adjoint simulation left threads with a dangling tape and destroyed the caller's own recording"),
 ("C04", "61ebda5", "working state indexed by thread number was shared by concurrent callers from outside the pool and by nested simulations"),
 ("C08", "2b4c651", "two different classes of the same name (fixings history) in one program: one-definition-rule clash, wrong destructor run"),
 ("C07", "e870217", "replacing an object erased the old one and added the new one in two steps; a failure in between lost the old one"),
 ("C08", "ab48e4b", "global stores returned references to entries that another thread could destroy"),
 ("C08", "0d43a88", "global dates and fixings were changed without or partly outside the lock: lost appends, torn reads, default date not sticking"),
 ("C08", "7018440", "no fixings store was installed by default: storing a fixing dereferenced null"),
 ("C08", "0be4604", "copy-assigning a matrix was declared noexcept: running out of memory there terminated the process"),
 ("C09", "105c8df", "holiday data was copied outside the lock and read without it: lost centres, races"),
 ("C09", "4003393", "index parsers were looked up without the registry's lock"),
 ("C09", "3cfedef", "index-parser initialisation raced"),
 ("C09", "9925e99", "calendar initialisation could not be repeated after a failure half way"),
 ("C09", "86253dd", "a combined calendar was published empty before it was computed; after a failure it stayed empty and later uses dereferenced null"),
 ("C10", "012f7a9", "writing or reading lines of a file ignored I/O errors (open, write, close, read) and cut lines longer than a buffer"),
 ("C10", "4cd8c43", "JSON files were written without checking the stream (full disk unnoticed) and read without checking for read and parse errors (torn documents)"),
 ("C11", "e32b7be", "a piecewise constant curve with fewer values than knots was accepted and read beyond its values"),
 ("C11", "8e480ec", "loading a damaged table read outside it; nested tables were exponentially wide"),
 ("C12", "8e2797c", "running out of memory while switching several adjoint results on left the mode half switched"),
 ("C12", "d4c2c49", "iterating a tape whose last block is exactly full went wrong; clearing a tape could fail half way"),
 ("C14", "92c0ec8", "a quiet fixing lookup without fixings in scope dereferenced null"),
 ("C14", "97f40b0", "an exclusive auditor dropped its last record before storing the new one, which could fail"),
 ("C13", "55f6c24", "an error raised when memory was short lost notes or its text silently"),
 ("C15", "57b2c7f", "listing an enumeration filled a shared list without a lock: two first listings raced, and running out of memory left a short list for ever"),
 ("C09", "57b2c7f", "day counts were registered, looked up and listed without a lock, and a refused registration left some of its names"),
 ("C09", "628e638", "a registered day count was never used: its year fractions were zero"),
 ("C16", "abebd6f", "a stack wrote past its end after a failed growth, crashed when pushed after Clear, kept freed data after a failed assignment, and TopAndPop gave the element above the top"),
 ("C16", "8fb662d", "resizing an array lost its first element, wrote past the new block when growing and was left half resized by a failed allocation"),
 ("C16", "c1b65b2", "a failed resize left a matrix with wrong dimensions or dangling rows; swapping with an empty matrix crashed; a moved-from matrix had random columns"),
 ("C17", "9119797", "a product split its events at one evaluation date and measured its time line from another when the date changed in between"),
 ("C17", "e3b3f7a", "preparing a product again doubled its time line, crashed on conditions found constant before, and a preparation that ran out of memory destroyed statements"),
 ("C11", "f7644ba", "a date-time written as text lost a second"),
 ("C11", "1488a5e", "numbers were written with six decimals and read without full precision: 1e-9 came back as 0"),
 ("C11", "0a85c15", "JSON: quotes, backslashes and control characters in strings were not escaped, integer vectors, flags and empty matrices could be written but not read"),
 ("C11", "b5c9d34", "tables: objects with empty vectors crashed, blank cells cut off the rest of a value, stored flags could not be read"),
 ("C11", "d41915d", "table files: text with commas, quotes or newlines, or looking like a number or flag, came back different or not at all; dates came back as text"),
 ("C11", "6005347", "part of d41915d: a text looking like an impossible time could not be saved"),
 ("C11", "835b472", "every date from 1 March 2034 to 28 February 2100 built from year, month and day, so also every date read from a file, was one day early"),
 ("C11", "2a57473", "a damaged report file was read out of bounds"),
 ("C15", "5495b3f", "when memory ran out while a volatility label or a script description was written, the text was handed out cut short instead of raising"),
 ("C10", "22dbc7f", "text was cut at a null character when written"),
 ("C11", "45b0f87", "an empty value in the last column of a table could not be read"),
 ("C11", "0b58cc2", "a damaged curve file was read out of bounds"),
 ("C11", "421c4b3", "an empty nameless bag could be saved as a table but not loaded"),
 ("C05", "ec1c019", "sensitivities looked up by name in a copy of the results read freed memory"),
 ("C05", "17b60e6", "sensitivities to named constants were zero when the product was compiled: the compiler folded them into plain constants"),
 ("C15", "feec920", "solving with a dense Cholesky decomposition wrote into a result it never sized: its quadratic forms, and with them the underdetermined search, overran the heap"),
 ("C15", "a2bc797", "the ACT/365L day count of an annual coupon that ends after a February without a leap day never returned"),
 ("C07", "cfbdf80", "adding an object under a name also removed objects whose names continue it with a tilde; looking up global fixings could give those of such a name (C08)"),
 ("C17", "36045f9", "simplification assumed that a logarithm is never negative and dropped branches that are taken"),
 ("C17", "0e8d9c4", "MIN and MAX of more than two arguments took only the first two into account, except in simplification, which took all: simplified products gave other values"),
 ("C17", "d320a40", "smoothed evaluation took != for =, and a negated smoothed condition for the condition"),
 ("C17", "ce4aeab", "every payment of the past left a number on the evaluator's stack: more than 128 of them overran it"),
 ("C18", "e2f3d11", "scripts cut short were read past their end, tokens were dropped in parentheses, constants could be assigned to; schedules without a frequency crashed, with a zero frequency never ended, and took a FIXING clause only at the end"),
 ("C18", "ce8e08d", "enumerations looked text that is not ASCII up outside a table; running out of memory while a long number was read made it a text"),
 ("C18", "c0f1eef", "an equity index name without its brackets was read outside the text"),
 ("C18", "861d5b9", "days that do not exist were read as other days (2024-02-30, 2024-13-01, 2200-01-01), and digits followed by letters as the digits"),
 ("C18", "9ea500f", "an index name with text after its closing bracket lost that text: EQ[IBM]2024-01-24 was the spot index"),
 ("C18", "8eddc77", "a dictionary text with an entry without a value, as dictionaries are written, was refused"),
 ("C16", "0e054a9", "a report asked for an address outside its inner axes gave or overwrote another address's value"),
 ("C15", "b5b76d1", "a banded symmetric matrix was never recognised as symmetric, and its decomposition and solution used memory outside the band"),
 ("C19", "78e5ec2", "a sparse matrix owned through its base class was not destroyed: every banded matrix leaked"),
 ("C19", "1f2d6c5", "every concentrating mesh leaked an interpolator nobody used"),
 ("C19", "250f057", "a view of a stored table was lost when its parent's list could not grow"),
 ("C19", "79a8ffa", "cloning a Brownian bridge lost the cloned generator when memory ran out"),
 ("C19", "1792b03", "a part of a table format was lost when the list of parts could not grow"),
 ("C19", "e5e7fe0", "a thread that had raised an error left its stack of notes behind when it ended"),
]
FINDINGS = []
try:
    exec(open(__file__.replace("gen_known", "more_known")).read())
except FileNotFoundError:
    pass
json.dump({"findings": FINDINGS, "fixed": ["fixed: property=%s %s %s" % f for f in FIXED]}, open("/verif/KNOWN_FINDINGS.json", "w"), indent=1)

import re, os
def between(text, tag, body):
    return re.sub(r"<!--%s-->.*<!--/%s-->" % (tag, tag), lambda m: "<!--%s-->\n%s\n<!--/%s-->" % (tag, body, tag), text, flags=re.S)
d = open("/verif/DESIGN.md").read()
d = between(d, "FIXED", "\n".join("* %s `%s`: %s." % f for f in FIXED))
c = "/verif/tools/catch.txt"
if os.path.exists(c):
    rows = [l.rstrip("\n").split("|") for l in open(c) if l.strip()]
    d = between(d, "CATCH", "| change | property | found |\n|---|---|---|\n" + "\n".join("| %s |" % " | ".join(r) for r in rows))
open("/verif/DESIGN.md", "w").write(d)
