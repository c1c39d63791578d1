#!/usr/bin/env python3
"""Write MANIFEST.json from the table below (run by hand after adding a check)."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = "exhaustive enumeration of bounded text spaces, each text's event trace of a reference model compared with the implementation's"
T = {
 "P01": ("exhaustive enumeration of bounded text spaces in guarded worker processes; every entry point run on each text",
   "All texts of the stated spaces; panics, aborts, faults, reads past the text (guard page), hangs (CPU limit) and unending event streams are violations."),
 "P02": ("exhaustive enumeration of bounded text spaces; event stream run through the grammar automaton",
   "All texts of the stated spaces; prefix property, completeness exactly when no error, nothing after an error or the end."),
 "P03": (REF, "Block-structure alphabets and line alphabets, the one-edit (thorough: also two-edit) neighbourhood of a 302-text corpus, and length, width, depth and count ladders."),
 "P04": (REF, "Flow alphabets in thirteen contexts, the corpus neighbourhood and the ladders."),
 "P05": (REF, "Scalar alphabets in 21 contexts, every BMP-start and boundary character in 26 contexts, all pairs of ASCII characters, the corpus neighbourhood and the ladders."),
 "P06": (REF, "23 headers times all bodies of bounded length over 19 kinds of lines in ten contexts, with and without the last break; token sequences; neighbourhood; ladders."),
 "P07": (REF, "Every code point in every escape form, every malformed digit pattern, every escape letter, and all short words over escapes and folds."),
 "P08": (REF + "; ids looked up in the parser after every event", "Anchor and alias alphabets in flow and block, over several documents; every name character in three positions."),
 "P09": (REF + "; both with and without keeping tags across documents", "Tag forms times directives times node kinds; directive lines and tokens."),
 "P10": (REF + "; and concatenation of every pair of texts of a pool compared with the parts", "Document markers in every combination up to the bound; all pairs of corpus texts and of short texts, joined by four separators."),
 "P11": (REF + "; texts the model rejects must be rejected by pulling, pushing and loading", "All of the mixed spaces plus a product of malformed fragments and contexts. Documented leniencies are part of the model."),
 "P12": ("exhaustive enumeration of bounded text spaces, the place of every event and error checked against the text and against the reference model's places",
   "All of the mixed spaces, the same spaces with other line breaks and longer characters, and the malformed texts. Exact starts and ends of scalars, aliases, flow indicators and document markers; starts of block collections; order and consistency of offset, line and column for everything, errors included."),
 "P13": ("exhaustive enumeration of bounded text spaces, each text run with five styles of line breaks and compared with itself",
   "All of the mixed spaces, block scalars and document lines; events, errors, lines, columns and trees."),
 "P14": ("exhaustive enumeration of bounded text spaces and, on each of a smaller set, of all sequences of peek, pull and load calls compared with a cursor model",
   "All of the mixed spaces for whole-stream agreement of pull, push, iterator and loading document by document; all call sequences up to length 3 (thorough 4) followed by pulling the rest, on short texts and the corpus."),
 "P16": ("exhaustive enumeration of bounded text spaces, each text's trees compared with an independent fold of its events",
   "All of the mixed, anchor and document spaces plus nesting up to and past the limit, through every loading entry point. The events themselves are decided by P03-P10."),
 "P17": ("exhaustive enumeration of bounded scalar texts in every style and with every core tag, compared with an independent core schema resolver",
   "Words over the characters of numbers and special words, one-edit neighbourhood of all listed words and of numbers around the 64-bit limits; directly and loaded from documents."),
 "P15": ("exhaustive enumeration of bounded text spaces; an independent input source and the string source, asked the same questions at every place, and the parser run on both",
   "Every operation of the source trait at every place of all short texts over the kinds of characters; all of the mixed and position spaces parsed, iterated and loaded from five sources with different buffers."),
 "P18": ("exhaustive enumeration of small trees, of pairs of trees and of all sequences of changes up to a depth, compared with a plain tree",
   "All queries and conversions of some thousand trees in both node types, all pairs for equality, eleven lookups each, and all sequences of 3 (thorough 4) of 66 changes made on the tree and on the model."),
 "P19": ("exhaustive enumeration of bounded documents times about 110 target types, compared with the value that the document's tree denotes for the type",
   "All trees of few nodes over scalars of every type and over field and variant names, in flow and block style; all short texts over the same words; all numbers up to 140000 and around powers of two in every notation; words in every style and with every core tag; all of the mixed spaces for few types. Trees are folded from the events, which P03-P11 decide."),
 "P20": ("exhaustive enumeration of bounded values times formatters times every byte at which the writer may fail; what is written is read back by the deserializer and by the reference model",
   "All 8 and 16 bit integers and those around powers of two; every character alone and next to others; all strings of up to 4 (thorough 5) parts and words at nine line lengths; floats of every exponent (thorough: all positive 32-bit floats)."),
 "P21": ("exhaustive enumeration of bounded text spaces times every line end times eight comments and blank lines, compared with the unchanged text",
   "All of the mixed spaces. The reference model decides, where the events differ, whether the inserted text is layout there."),
 "P22": ("exhaustive enumeration of bounded text spaces times some twenty changes of the indentation, compared with the unchanged text",
   "Block structure and block scalars in full, flow, scalars, anchors and tags at smaller bounds. The reference model decides, where the events differ, whether the change is one of layout."),
 "P23": ("exhaustive enumeration of bounded text spaces, run on two builds of the crate, one with comment reporting; comments compared with the reference model's",
   "All of the mixed spaces and comments of every kind between all kinds of tokens, lines and documents. check.sh builds a copy of the crate with the feature on, so that both builds run in one process. On rejected texts each reported comment is checked by itself."),
 "P24": ("exhaustive enumeration of bounded text spaces and of long texts of every repeated or mirrored pattern of few tokens, with a counting source and a counting allocator",
   "The mixed spaces; every pattern of one token up to a megabyte, of two up to 64 KiB, of three up to 4 KiB, and patterns of two tokens followed by as many of two others. Copying within the parser's own queues is not counted, only bounded by the time limit."),
}
NA = {}
props = [json.loads(l)["id"] for l in open(f"{root}/properties.jsonl")]
checks = [{
  "property": p, "quick_cmd": f"bash check.sh {p} quick", "thorough_cmd": f"bash check.sh {p} thorough",
  "evidence_file": f"evidence/{p}.json", "technique": T[p][0], "level": "model_checking", "level_note": T[p][1],
} for p in props if p in T]
na = [{"property": p, "reason": NA.get(p, "no check yet: under construction")} for p in props if p not in T]
m = {"version": 1, "setup_cmd": "bash check.sh build",
     "hooks": {"guard": "--cfg yam_mc (a rustc cfg flag)", "enable": "mc/.cargo/config.toml passes --cfg yam_mc; check.sh builds there. Only the external input source of P15 needs it: it names the type Source::skip_ws_to_eol returns.", "source_commits": ["7d40344"]},
     "checks": checks, "not_applicable": na}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
