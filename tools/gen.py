#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the definitions below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note, state=()):
    assert len(title) <= 80, title
    PROPS.append(dict(
        entry=dict(id=id, title=title, statement=statement,
            quantifier=dict(over=over, text=text), why_tests_cant=why,
            anchors=dict(files=files, state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
                mechanism=[dict(zip(("name", "where"), m)) for m in mechanism], observe_at=observe, hook_needed=None)),
        technique=technique, note=note))


prop("C01", "Node trees keep parent links and document order through every edit",
    "After any sequence of edits on a node tree (append, extend, insert, item or slice assignment, replacing, taking out, moving, copying), every node that is in the tree has the node that contains it as parent, and every navigation or query result (ancestors, siblings, trails, descendants, forward and backward iteration with and without pruning, common ancestors, class and instance queries) is exactly the set of nodes, in exactly the order, that the document order dictates. Copies are equal and share no nodes with the original, equality is structural while identity is not affected, and a tree holds no circular references.",
    ["histories", "inputs"], "all edit histories on trees of arbitrary shape with mixed node classes; all pairs of nodes in the result",
    "The only test checks six queries on one fixed tree of ten nodes without any edit.",
    ["quickly/node.py"], [("weak parent reference set by every adding method", "quickly/node.py Node.append/extend/insert/__setitem__/replace_with"), ("iteration generators", "quickly/node.py Node.descendants/forward/backward/filter_descendants")],
    ["return values of Node methods"], "reference-model monitor over edit histories", "plain parent/children table as model; histories of up to 12 edits on trees of up to about 45 nodes",
    [("parent link", "weak reference to the containing node", "quickly/node.py Node._parent")])

prop("C02", "A range of a node tree contains exactly the nodes between its ends",
    "A range taken from a tree, with any start and end node (or none, or reversed), contains and iterates exactly the nodes from the start node up to and including the end node in document order; navigating in it, pruning, containment tests and extracting a copy agree with that. Editing nodes at the current iteration level through the range during iteration never skips, repeats or loses a node in the range, and never lets a node from outside enter it.",
    ["inputs", "histories"], "all trees, all pairs of boundary nodes, all positions and all sequences of item edits through the range during iteration",
    "No test uses ranges except implicitly through whole-document edits.",
    ["quickly/node.py"], [("boundary trails and iteration levels", "quickly/node.py Range, Range._Level"), ("boundary adjustment on edits", "quickly/node.py Range.__setitem__")],
    ["Range methods"], "reference-model monitor: slices of document order", "brute force over document order; edits are monitored for the current iteration level; boundaries removed at the start are not judged",
    [("boundary trails", "path to the first and last node", "quickly/node.py Range.start_trail/end_trail")])

prop("C03", "LilyPond text that is read and written back means the same",
    "For every well-formed LilyPond document, reading it to an element tree and writing that tree as text yields text that, read again, gives an equal element tree; nothing that was in the music, markup, lyrics, block, assignment or comment is lost, added, merged or reordered, and writing once more yields the identical text.",
    ["inputs"], "all LilyPond texts over the constructs the library has elements for, at arbitrary nesting",
    "The tests compare about forty hand-picked fragments.",
    ["quickly/lang/lilypond.py", "quickly/dom/lily.py", "quickly/dom/element.py", "quickly/dom/base.py", "quickly/dom/markup.py", "quickly/dom/util.py"],
    [("transform of the parse tree", "quickly/lang/lilypond.py LilyPondTransform, MusicBuilder"), ("heads, tails and whitespace", "quickly/dom/element.py Element.points/write, child_order, space_*")],
    ["read.lily_document", "Element.write"], "round-trip oracle over a generated language workload", "random document generator covering the element classes; equality judged by an own structural comparison")

prop("C04", "Reading never fails, and the tree is traceable to the text",
    "Any text whatsoever, however malformed, can be read as LilyPond, Scheme, HTML or LaTeX without an error and the result can be written; every element that comes from text knows the position it comes from: for well-formed input positions follow the text order, lie within the containing element, and the text at the position is the element's own text. Looking up elements by position finds exactly the elements that are there.",
    ["inputs"], "all texts, well-formed and hostile; all positions in them",
    "Tests read a few well-formed fragments only, and only check two positions.",
    ["quickly/lang/lilypond.py", "quickly/lang/scheme.py", "quickly/lang/html.py", "quickly/lang/latex.py", "quickly/dom/element.py", "quickly/dom/read.py"],
    [("origin tokens", "quickly/dom/element.py head_origin/tail_origin, pos/end"), ("bisecting position lookup", "quickly/dom/element.py find_child/find_descendant*")],
    ["read.*_document", "Element.pos/end", "Element.find_*"], "fuzzing with origin and position monitors", "generated and mutated texts; brute force search as oracle for lookups")

prop("C05", "Writing back edits changes exactly what was modified",
    "Writing a tree back to the document it was read from makes no change if nothing was modified; after any modifications of the tree, exactly the text of the modified, added or removed elements is replaced, all other text including its whitespace and comments is left alone, and reading the document again gives a tree equal to the modified one.",
    ["inputs", "histories"], "all documents and all sequences of tree modifications (changing, adding, removing, moving, replacing elements)",
    "Tests edit three small documents in one way each.",
    ["quickly/dom/element.py", "quickly/dom/edit.py"],
    [("modified state and edits", "quickly/dom/element.py Element.edits, BuildInOrigin/BuildOutdated"), ("point merging", "quickly/dom/util.py merge_points")],
    ["Element.edits", "Element.edit", "parce.Document text"], "differential monitor: edited text vs re-read tree", "random modifications; untouched spans located by unique tokens")

prop("C06", "Indented writing changes whitespace only",
    "Writing a tree with indentation, with any settings, yields text that reads back as an equal tree, differs from the plain written text in whitespace only, and is a fixed point: reading and writing it indented again gives the same text. Nested blocks are indented by the configured amount per level, and the contents of multi-line strings and comments are never changed.",
    ["inputs", "configurations"], "all trees and all combinations of indent settings",
    "One test compares four fragments with default settings.",
    ["quickly/dom/indent.py", "quickly/dom/element.py"], [("indenter", "quickly/dom/indent.py Indenter")],
    ["Element.write_indented", "indent.Indenter.write"], "round-trip oracle over generated trees and settings", "generated documents; whitespace-insensitive token comparison")

prop("C07", "Copies of element trees are equal, independent and keep their text",
    "Copying an element tree gives a tree that is equal to the original, writes to the same text, and is independent: modifying either one never affects the other; a copy with origin also retains the positions. Two trees are equal exactly when they have the same element types, contents and structure.",
    ["inputs", "histories"], "all element trees and modifications of the copy or the original",
    "One test compares a copied document after one change.",
    ["quickly/dom/element.py", "quickly/node.py"], [("copying", "quickly/dom/element.py Element.copy, copy_with_origin"), ("equality", "quickly/node.py Node.equals; body_equals")],
    ["Element.copy", "Element.copy_with_origin", "Element.equals"], "differential monitor with own structural comparison", "generated documents; random modifications")

prop("C08", "Scheme values survive reading, writing and conversion",
    "Every Scheme expression that is read keeps its value: writing and reading it again gives an equal tree, numbers in every notation and base read as the exact number they denote, strings and characters keep their contents, and converting values to elements and back yields the same value with the same type.",
    ["inputs"], "all Scheme data: numbers in all notations, strings with any character, nested and dotted lists, quotes, vectors, comments",
    "The test has a dozen literals.",
    ["quickly/lang/scheme.py", "quickly/dom/scm.py"], [("reading", "quickly/lang/scheme.py SchemeTransform"), ("elements", "quickly/dom/scm.py")],
    ["read.scm", "Element.write", "scm elements"], "independent Scheme datum reader as oracle", "random datum generator with own evaluator")

prop("C09", "HTML and LaTeX documents survive, with the LilyPond inside",
    "Reading an HTML or LaTeX document and writing it gives a document that reads back as an equal tree in which tags, attributes, entities, comments, environments and options are kept, and embedded LilyPond music is available as a LilyPond tree equal to the one read from that music alone.",
    ["inputs"], "all HTML and LaTeX documents with embedded LilyPond in every documented form",
    "No test reads HTML or LaTeX.",
    ["quickly/lang/html.py", "quickly/lang/latex.py", "quickly/dom/htm.py", "quickly/dom/tex.py"], [("transforms", "quickly/lang/html.py, quickly/lang/latex.py")],
    ["read.htm_document", "read.tex_document"], "round-trip oracle over generated documents", "random generator of documents")

prop("C10", "Pitch names are read and written faithfully in every language",
    "In every pitch language and with every preference setting, writing a pitch and reading it back gives the same pitch, a name of the preferred style is used where the language has one, and preferences distilled from existing music reproduce the style of that music. Language commands in a document are followed, changing a pitch of a note writes exactly that pitch and keeps an equivalent name, and the languages determined from a set of names are exactly the languages that have all of them.",
    ["inputs", "configurations"], "all languages, all names, octaves, preference settings and sets of names",
    "Tests check a few names in four languages.",
    ["quickly/pitch.py"], [("reversed table", "quickly/pitch.py pitch_names_reversed"), ("style choice", "quickly/pitch.py PitchProcessor._suitable"), ("style detection", "quickly/pitch.py PitchProcessor.distill_preferences")],
    ["PitchProcessor", "determine_language"], "table-driven oracle over random pitches and settings", "all languages are sampled; parce's table is trusted")

prop("C11", "Pitch arithmetic agrees with LilyPond's octave and MIDI rules",
    "Making a pitch relative to another and absolute again are inverse, and follow LilyPond's rule that without octave marks the note at most a fourth away (counted in note names) is meant. Converting a MIDI key to a pitch and back is the identity with any choice of flats, and pitches compare by octave, then note, then alteration.",
    ["inputs"], "all pitches, octaves, MIDI keys and lists of flats",
    "Tests check a dozen values.",
    ["quickly/pitch.py"], [("octave computation", "quickly/pitch.py Pitch.make_absolute/make_relative"), ("MIDI", "quickly/pitch.py Pitch.to_midi/from_midi")],
    ["Pitch methods"], "brute-force oracle for nearest octave and semitones", "random pitches over many octaves")

prop("C12", "Key signatures have the right accidentals and spell MIDI keys soundly",
    "For every tonic and every standard or composed mode, the accidentals of the key are those of that scale, the tonic for a number of sharps or flats has exactly that many, and every MIDI key converted in that key gives a pitch that sounds as that MIDI key and is spelled as in the scale when it belongs to it.",
    ["inputs", "configurations"], "all tonics, modes, composed modes, lists of flats and MIDI keys",
    "Tests check about ten keys.",
    ["quickly/key.py"], [("scales", "quickly/key.py alterations/accidentals/chromatic_scale/tonic"), ("MIDI table", "quickly/key.py KeySignature._midi_reader")],
    ["KeySignature", "module functions"], "independent semitone computation as oracle", "tonics up to double alterations; seven-tone scales")

prop("C13", "Durations convert exactly and transforms compose",
    "Every note length with dots converts exactly between its value, its log and dots, and its text; other values are truncated to the longest writable length that is not longer, and only exactly writable values are reported writable. Shifting changes log and dots by the given amounts, and the sum of two transforms does what both do one after the other.",
    ["inputs"], "all logs, dot counts, rational values, shifts and scalings",
    "Tests check about twenty values.",
    ["quickly/duration.py"], [("conversion", "quickly/duration.py log_dotcount/duration/to_string/from_string"), ("transform", "quickly/duration.py Transform")],
    ["duration functions", "Transform"], "exact rational arithmetic as oracle", "values up to 53 significant bits; negative dot shifts are not composed")

prop("C14", "Transposing moves every sounding pitch by exactly the interval",
    "Transposing music, in absolute, relative or fixed-octave notation, moves every sounding pitch, key signature, chord root and pitched argument by exactly the interval (note names, alteration and octave), and changes nothing else; transposing back restores the music. Transposing only a selected part moves the selected pitches, as they sound, by exactly the interval, and keeps every other pitch sounding as it did; a note name is only respelled where the alteration would exceed a double sharp or flat.",
    ["inputs", "configurations"], "all music with notes, chords, keys, nesting of relative, fixed and transpose commands, all intervals, all selections and pitch languages",
    "Tests transpose a handful of fragments of a few notes.",
    ["quickly/transpose.py", "quickly/relative.py", "quickly/pitch.py"], [("transposers", "quickly/transpose.py Transposer"), ("music transposition", "quickly/transpose.py Transpose")],
    ["transpose functions", "Document text"], "independent evaluator of sounding pitches (own LilyPond reader)", "generated music; sounding pitches before and after computed by an own evaluator from the text")

prop("C15", "Converting between relative and absolute pitches keeps the music",
    "Converting music from relative to absolute notation, or from absolute to relative with any option, never changes a sounding pitch, a rhythm or any other content, whatever nesting, chords, voices, repeats, octave checks or selections are involved, and leaves no relative notation behind where absolute was requested.",
    ["inputs", "configurations"], "all music in absolute and relative notation, all conversion options and selections",
    "Tests convert a handful of fragments of a few notes.",
    ["quickly/relative.py", "quickly/pitch.py"], [("rel2abs", "quickly/relative.py Rel2abs"), ("abs2rel", "quickly/relative.py Abs2rel")],
    ["relative.rel2abs", "relative.abs2rel", "Document text"], "independent evaluator of sounding pitches (own LilyPond reader)", "generated music; pitches computed from the text before and after")

prop("C16", "Rhythm edits change durations as specified and nothing else",
    "Making durations explicit or implicit never changes any sounding duration; removing, halving, doubling, dotting, undotting, applying or copying rhythms changes exactly the durations specified, in the documented way, and never changes pitches, order, articulations or other contents; selections limit the change to the selected part.",
    ["inputs", "configurations", "histories"], "all music with notes, chords, rests, skips, scaled durations, tuplets and lyrics, all rhythm operations and selections",
    "Tests apply each operation to one short fragment.",
    ["quickly/rhythm.py", "quickly/dom/lily.py"], [("edits", "quickly/rhythm.py EditRhythm subclasses"), ("duration properties", "quickly/dom/lily.py Durable.duration_scaling")],
    ["rhythm functions", "Document text"], "independent evaluator of durations (own LilyPond reader)", "generated music; durations computed from the text before and after")

prop("C17", "Musical time is computed as LilyPond plays it",
    "The length of every piece of music, the time position of every element and the duration between two positions are exactly the rational values that follow from LilyPond's rules for implicit durations, scaling, tuplets, grace notes, chords, simultaneous music, repeats, voices and variables, and lengths, positions and durations of parts and wholes are consistent with each other.",
    ["inputs"], "all music expressions with arbitrary nesting, variables and cursor positions",
    "Tests check about fifteen lengths.",
    ["quickly/time.py", "quickly/dom/lily.py"], [("time computation", "quickly/time.py Time, TimeContext"), ("per-element time", "quickly/dom/lily.py Music.time_length, Durable, properties/transform")],
    ["Time.length/position/duration", "time functions"], "independent evaluator of musical time (own LilyPond reader)", "generated music; exact fractions compared")

prop("C18", "Variables resolve to the assignment LilyPond would use",
    "A reference resolves to the last preceding assignment of that name, with the given path, in the document or in the included documents in order of inclusion, and to nothing if there is none; included files are searched relative to the including file and in the search path, circular includes and circular references end, and values that are set through the document can be read back.",
    ["inputs", "configurations"], "all documents with assignments, references, nested paths and include structures",
    "One test covers a single assignment.",
    ["quickly/dom/scope.py", "quickly/dom/lily.py", "quickly/dom/util.py"], [("scope", "quickly/dom/scope.py Scope"), ("lookup", "quickly/dom/lily.py Reference.get_value, Assignment, Document.get_variable")],
    ["Reference.get_value", "Scope"], "model of assignments over generated include graphs", "include trees in a scratch directory")

prop("C19", "Number notations are inverse conversions",
    "Converting a positive integer to a Roman numeral, to letters of any alphabet, or to English text, and back again gives the same number; the notations are the customary ones, are ordered like the numbers, and invalid input is rejected as documented.",
    ["inputs"], "all integers in the supported range and all alphabets",
    "Tests sample small ranges; text numbers above 9999 are not tested.",
    ["quickly/numbering.py"], [("conversions", "quickly/numbering.py")],
    ["numbering functions"], "independent conversions as oracle", "random numbers up to 999999999")

prop("C20", "Setting a musical or document property reads back and writes correctly",
    "For every element property that can be set (durations, scalings, octaves, accidentals, octave checks, articulations, header fields, versions, languages, variables, key, time and tempo values and the like), setting a value makes reading it give that value, changes the written text accordingly and nothing else, and unsetting it restores the element to what it was without the property.",
    ["inputs", "histories"], "all elements with settable properties, all values and all sequences of setting and unsetting",
    "Tests set a handful of properties once.",
    ["quickly/dom/lily.py", "quickly/dom/scm.py", "quickly/dom/base.py"], [("property helpers", "quickly/dom/lily.py Durable, Pitchable, HandleAssignments, Header, Document")],
    ["element properties", "Element.write"], "model-based histories of property assignments", "random values and sequences, checked by re-reading the text")

prop("C21", "Related musical elements find each other",
    "The start of a slur, phrasing slur, beam, ligature, text spanner, trill or melisma finds exactly the end that belongs to it and vice versa, also when they are nested, numbered, tweaked or unfinished, or when there are others in nested contexts, parallel voices or other expressions; and articulations, tweaks, modifiers and durations belong to the note, chord, rest or inner chord note they are written at, in the written order.",
    ["inputs"], "all sequences of spanner events in nested music",
    "Tests check no spanner lookup.",
    ["quickly/dom/lily.py", "quickly/lang/lilypond.py"], [("spanner lookup", "quickly/dom/lily.py Spanner/find_parallel"), ("music builder", "quickly/lang/lilypond.py MusicBuilder")],
    ["spanner properties"], "reference matcher over generated spanner sequences", "sequences of starts and stops with ids")

prop("C22", "A live document keeps its tree in step with the text",
    "After any sequence of text edits in a live document, the tree obtained from it equals the tree of a fresh document with the same text; applying an edit operation through a document, a cursor, an element tree or a range gives the same result where they denote the same music, and limits itself to the selection.",
    ["histories", "schedules"], "all edit histories of a document and all ways to address the music",
    "Tests never edit text after parsing and use one entry point.",
    ["quickly/lang/lilypond.py", "quickly/dom/edit.py"], [("incremental transform", "quickly/lang/*.py with parce.Document"), ("entry points", "quickly/dom/edit.py Edit.edit_*")],
    ["Document.get_transform", "edit.Edit.edit"], "differential monitor: incremental vs fresh, entry point vs entry point", "random text edit histories; parce is trusted to lex and parse incrementally")

prop("C23", "Documents built by hand are written and read back as what they were built with",
    "A document built from elements by hand (music, blocks, contexts, markup with the markup functions, Scheme with the Scheme helpers, elements made from text) is written as LilyPond text with exactly those contents in that order; reading that text, or other LilyPond text with the same meaning, gives an equal tree; and every markup function writes the command it is named after with the given arguments in order, each converted to a word, a quoted string, a number or Scheme as documented.",
    ["inputs", "configurations"], "all element trees that can be built from the public constructors and helper functions",
    "Tests compare a few hand-built trees with their text.",
    ["quickly/dom/markup.py", "quickly/dom/lily.py", "quickly/dom/scm.py", "quickly/dom/read.py", "quickly/dom/element.py", "quickly/lang/lilypond.py", "quickly/datatypes.py"],
    [("markup functions", "quickly/dom/markup.py"), ("constructors", "quickly/dom/element.py Element, build_tree; quickly/dom/lily.py"), ("music builder", "quickly/lang/lilypond.py LilyPondTransform, MusicBuilder"), ("Scheme helpers", "quickly/dom/scm.py s, q, qq, uq, i")],
    ["Element.write", "read.lily_document", "markup functions"], "paired generation of text and tree, written independently, with a tree and token monitor", "text/tree pairs; LilyPond constructs parce cannot lex are left out")

prop("C24", "Written text has the whitespace its elements ask for",
    "Between every two texts that an element tree writes after each other stands exactly the most important whitespace asked for there by the elements: their whitespace before and after, after the head, between children and before the tail, including layout elements without a text of their own (new lines, blank lines, lines and columns); newlines win over spaces, and more win over less. The whitespace of an element can be given when it is made, set, reset and deleted, after which the default applies again; indented writing keeps the same number of newlines.",
    ["inputs", "configurations"], "all element trees with any whitespace attributes",
    "Tests compare the text of a few trees with default whitespace.",
    ["quickly/dom/element.py", "quickly/dom/base.py", "quickly/dom/util.py", "quickly/dom/indent.py"],
    [("whitespace attributes", "quickly/dom/element.py ElementType"), ("points", "quickly/dom/element.py Element.points, write"), ("layout elements", "quickly/dom/base.py Newline, BlankLine, Line, Column"), ("collapsing", "quickly/dom/util.py combine_text, collapse_whitespace")],
    ["Element.write", "Element.write_indented", "Element.space_*"], "reference model of the whitespace between texts, over generated trees and attribute histories", "whitespace of newlines or spaces")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p["entry"], ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in PROPS:
        id = p["entry"]["id"]
        if os.path.exists(os.path.join(ROOT, "vt", "checks", id.lower() + ".py")):
            checks.append(dict(property=id, quick_cmd="./check.sh %s quick" % id, thorough_cmd="./check.sh %s thorough" % id,
                evidence_file="evidence/%s.json" % id, technique="runtime monitoring: " + p["technique"], level="exploration", level_note=p["note"]))
        else:
            na.append(dict(property=id, reason="check under construction"))
    m = dict(version=1, setup_cmd="./setup.sh",
        hooks=dict(guard="none", enable="no hooks in /repo are needed: the monitors observe the public API from outside", source_commits=[]),
        checks=checks, not_applicable=na, notes="See DESIGN.md. Genuine defects are listed in known-findings.txt.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")
    print(len(checks), "checks,", len(na), "not claimed:", [x["property"] for x in na])


main()
