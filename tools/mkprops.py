#!/usr/bin/env python3
"""Writes properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Footprints survive being written and read back",
 "A footprint that is written out and read back is the same footprint: same name, same elements in the same order, and every attribute of every element has the value it had. "
 "This holds for every combination of optional attributes, every finite number, every non-negative time stamp and every text without double quotes, backslashes or line breaks.",
 ["inputs"], "all footprints over every element kind: all finite coordinates, sizes, widths, stamps and net numbers, all presence/absence combinations of optional attributes, all text contents in the stated alphabet",
 "Three sample files are parsed and compared; they never use most optional attributes (trapezoid delta, oval drills with offset, clearances, thermal gaps, locked, arcs, polygons ...), and a comparison of a handful of files cannot speak for all attribute values.",
 ["src/footprint/ser.rs", "src/footprint/de.rs", "src/footprint/data.rs", "src/formatter.rs"],
 [("writer for footprint elements", "src/footprint/ser.rs"), ("reader for footprint elements", "src/footprint/de.rs"), ("layout of the text", "src/formatter.rs")],
 ["footprint::module_to_string then footprint::parse"])

prop("C02", "Reading a footprint puts every value where it belongs",
 "Reading a footprint file yields, for every element in the file, an element of the matching kind whose attributes carry exactly the values written in the file, with the documented default where an optional attribute is absent. "
 "No value ends up under another attribute, and the elements keep the order of the file.",
 ["inputs"], "all footprint files made of the supported elements, all attribute values, every presence/absence choice of optional attributes, pad attributes in any order",
 "A symmetric mistake (two attributes swapped on both reading and writing, a value dropped on both sides) is invisible to the round-trip tests, and the samples cover few attribute combinations.",
 ["src/footprint/de.rs", "src/footprint/data.rs"],
 [("reader for footprint elements", "src/footprint/de.rs"), ("layer, pad type and pad shape names", "src/footprint/data.rs")],
 ["footprint::parse"])

prop("C03", "Board layouts survive being written and read back",
 "A board layout that is written out and read back is the same layout: version, host, general section, page, layer table, setup, nets, net classes, modules, drawings, dimensions, segments, vias, zones and unrecognised sections are all present, in order, with unchanged values. "
 "This holds for all finite numbers and all text without double quotes, backslashes or line breaks.",
 ["inputs"], "all layouts over every element kind with all attribute values and optional parts present or absent",
 "Two sample boards are parsed and compared with an edit distance; they exercise one choice of every optional part and fixed numbers.",
 ["src/layout/ser.rs", "src/layout/de.rs", "src/layout/data.rs", "src/formatter.rs"],
 [("writer for layout elements", "src/layout/ser.rs"), ("reader for layout elements", "src/layout/de.rs")],
 ["layout::layout_to_string then layout::parse"])

prop("C04", "Reading a layout puts every value where it belongs and keeps unknown parts",
 "Reading a board layout yields, for every section of the file, the matching element carrying exactly the values written in the file under their own attribute. "
 "Sections that are not recognised are kept verbatim as trees, never dropped, merged or reordered.",
 ["inputs"], "all layout files made of the supported sections with all attribute values, plus unrecognised sections of any shape",
 "The round-trip tests cannot see symmetric mistakes, and only sections occurring in the two sample boards are exercised.",
 ["src/layout/de.rs", "src/layout/data.rs"],
 [("reader for layout elements", "src/layout/de.rs")],
 ["layout::parse"])

prop("C05", "Schematics survive being written and read back",
 "A schematic that is written out and read back is the same schematic: libraries, description, components with all their fields and placement, sheets with their labels, wires, connections, no-connects, texts and unrecognised lines keep their values and relative order. "
 "This holds for all integer coordinates and sizes, all flag combinations, all quoted text without double quotes or line breaks, and all words without blanks where the format does not quote.",
 ["inputs"], "all schematics over every element kind, all integer values, all orientation/justification/visibility/italic/bold combinations, all text contents in the stated alphabet",
 "One sample schematic is parsed and compared; most combinations of flags, justifications, label shapes and field numbers never occur in it.",
 ["src/schematic.rs", "src/lib.rs"],
 [("line-based reader", "src/schematic.rs"), ("text writers", "src/schematic.rs"), ("quote aware splitting", "src/lib.rs")],
 ["schematic::parse_str, Display for Schematic"])

prop("C06", "Reading a schematic puts every value where it belongs",
 "Reading a schematic yields, for every entry of the file, the matching element carrying exactly the values written in the file: field numbers, quoted values, orientations, coordinates, sizes, visibility, justification, italic, bold, field names, sheet geometry, label form, side and position, wire kind and end points. "
 "Lines that are not understood at the top level are kept verbatim.",
 ["inputs"], "all schematic files made of the supported entries with all attribute values, including quoted text with spaces and empty quoted text",
 "A symmetric mistake is invisible to the single round-trip sample, which also uses few values.",
 ["src/schematic.rs", "src/lib.rs"],
 [("line-based reader", "src/schematic.rs"), ("quote aware splitting", "src/lib.rs")],
 ["schematic::parse_str"])

prop("C07", "Symbol libraries survive being written and read back",
 "A symbol library that is written out and read back is the same library: every symbol keeps its name, reference, flags, aliases, fields (value, geometry, justification, italic, bold, visibility, name), pins and other drawing primitives, with unchanged values and order. "
 "This holds for all integers and all non-empty words without blanks or double quotes.",
 ["inputs"], "all symbol libraries, all coordinates and sizes, all flag, justification, orientation, pin type and pin shape combinations",
 "One sample library is parsed and compared; it contains no bold or italic field and only some pin kinds.",
 ["src/symbol_lib.rs", "src/lib.rs"],
 [("text writers", "src/symbol_lib.rs"), ("line-based reader", "src/symbol_lib.rs")],
 ["symbol_lib::parse_str, Display for SymbolLib"])

prop("C08", "Reading a symbol library puts every value where it belongs",
 "Reading a symbol library yields, for every definition of the file, the matching symbol whose flags, units, fields, pins and drawing primitives carry exactly the values written in the file, in file order; drawing primitives that are not interpreted are kept verbatim.",
 ["inputs"], "all symbol library files made of the supported entries with all attribute values",
 "A symmetric mistake is invisible to the single round-trip sample.",
 ["src/symbol_lib.rs", "src/lib.rs"],
 [("line-based reader", "src/symbol_lib.rs")],
 ["symbol_lib::parse_str"])

prop("C09", "Footprint library tables are read faithfully and survive a round trip",
 "Reading a footprint library table yields every library in file order with its name, type, location, options and description exactly as written, and writing the table out and reading it back yields the same table.",
 ["inputs"], "all tables, any number of libraries, all text without double quotes, backslashes or line breaks, including empty text and text with spaces or parentheses",
 "One sample table is compared; it says nothing about empty or unusual texts.",
 ["src/fp_lib_table.rs", "src/formatter.rs"],
 [("reader", "src/fp_lib_table.rs"), ("writer", "src/fp_lib_table.rs")],
 ["fp_lib_table::parse, fp_lib_table::to_string"])

prop("C10", "No input file can crash a reader",
 "Every reader (footprint, layout, schematic, symbol library, project, library table) finishes on every text, however malformed or truncated, by returning a value or an error; it never panics, aborts or loops.",
 ["inputs"], "all texts: every truncation of a valid file, every line or token replaced by arbitrary characters, missing and surplus fields, empty lines and empty lists; lists nested to a bounded depth",
 "The tests only feed well-formed sample files.",
 ["src/footprint/de.rs", "src/layout/de.rs", "src/schematic.rs", "src/symbol_lib.rs", "src/project.rs", "src/fp_lib_table.rs", "src/lib.rs"],
 [("error results instead of panics", "src/error.rs"), ("bounds of line and token access", "src/schematic.rs"), ("bounds of line and token access", "src/symbol_lib.rs")],
 ["every parse function"])

prop("C11", "Written text is stable and layout of the text never changes its meaning",
 "Writing a document, reading it back and writing it again produces the identical text. "
 "Pretty-printing of tree-structured files only chooses white space: the written text always contains exactly the same tree of lists and atoms as the value being written, whatever sections it is made of.",
 ["inputs"], "all footprints, layouts, schematics, symbol libraries and tables; all trees built from known and unknown section names and atoms",
 "The tests compare a few sample files up to a small edit distance; indentation state depends on the sequence of sections, which they do not vary.",
 ["src/formatter.rs", "src/footprint/ser.rs", "src/layout/ser.rs", "src/schematic.rs", "src/symbol_lib.rs", "src/fp_lib_table.rs"],
 [("indentation state machine", "src/formatter.rs")],
 ["module_to_string, layout_to_string, Display for Schematic and SymbolLib"])

prop("C12", "Files are recognised as what they are, or refused",
 "Reading a file without a preference reports the kind whose format the content follows and a content equal to what that format's reader yields; content that follows no format is reported as unknown. "
 "The functions for reading one specific kind yield that kind or an error, never a value of another kind, whatever the name of the file.",
 ["inputs", "configurations"], "all file contents from every supported kind and none, for every expected kind",
 "No test goes through the file identification at all.",
 ["src/lib.rs", "src/project.rs", "src/util.rs"],
 [("trial order of the readers", "src/lib.rs"), ("result selection of the read functions", "src/lib.rs")],
 ["read_kicad_file, read_module, read_layout, read_schematic, read_symbol_lib, read_project, read_fp_lib_table"])

prop("C13", "Saving either writes the complete text or reports an error",
 "When saving a footprint, a layout or a text reports success, the file holds exactly the complete text; whenever the operating system refuses to open the file, accepts only part of the data or fails, the failure is reported instead of a silently truncated file. "
 "Reading a file reports an error rather than returning a prefix when reading fails.",
 ["fault_sequences", "inputs"], "all sequences of short writes, interrupted calls, failed opens and failed reads/writes during one save or load",
 "No test saves a file, and no test injects a failing or partial system call.",
 ["src/util.rs", "src/lib.rs"],
 [("write_file / read_file", "src/util.rs"), ("error propagation", "src/error.rs")],
 ["write_file, read_file, write_module, write_layout"])

prop("C14", "Renaming a net renames it everywhere and touches nothing else",
 "Renaming a net in a layout changes exactly the occurrences of that exact name, in the net list, in net classes, in the pads of all modules and in zones, and leaves every other name and all other data as they were. "
 "Renaming a net in a module, or a block inside a net name, follows the same rule.",
 ["inputs"], "all layouts, all old and new names including prefixes, suffixes and names equal to one another",
 "One fixed net name is tested for the unnamed-net case; no test renames a net in a layout.",
 ["src/layout/data.rs", "src/footprint/data.rs"],
 [("per element rename", "src/layout/data.rs"), ("pad rename", "src/footprint/data.rs")],
 ["Layout::change_net_name, Module::rename_net, NetName::rename"])

prop("C15", "Moving a layout moves every placed item by the same offset",
 "Adjusting a layout by an offset adds exactly that offset to the position of every module, drawing, text, dimension, segment, via and zone point, and changes nothing else; moving by an offset and back restores every position. "
 "The bounding box of the moved layout is the old one moved by the offset.",
 ["inputs"], "all layouts, all offsets and coordinates on an exactly representable grid",
 "No test adjusts a layout.",
 ["src/layout/data.rs", "src/footprint/data.rs", "src/lib.rs"],
 [("Adjust implementations", "src/layout/data.rs")],
 ["Layout::adjust, Layout::bounding_box"])

prop("C16", "Bounding boxes enclose what they bound",
 "The bounding box of an item contains all of the item's defining points and extents, in whatever order or direction the points are given, with its smaller corner not beyond its bigger corner. "
 "The box of a module (its position, pads and fabrication drawings), of a layout (all items) or of a schematic (components and sheets) contains the boxes of these parts, that of a module or layout is not larger than their union, and merging boxes is order independent.",
 ["inputs"], "all items, all coordinates on an exactly representable grid, arcs by the points they are given by, all drawing directions, pads turned by multiples of 90 degrees, any number and order of parts",
 "Three fixed pads and one sample footprint are tested.",
 ["src/lib.rs", "src/footprint/data.rs", "src/layout/data.rs", "src/schematic.rs"],
 [("Bound::update / swap_if_needed", "src/lib.rs"), ("BoundingBox implementations", "src/footprint/data.rs"), ("BoundingBox implementations", "src/layout/data.rs"), ("BoundingBox implementations", "src/schematic.rs")],
 ["bounding_box of every item"])

prop("C17", "Flipping twice restores a module; rotation stays within a full turn",
 "Flipping a module swaps front and back on every layered part, mirrors every position top to bottom and the texts, and leaves other layers and the horizontal position alone; flipping twice restores all positions and layers. "
 "Rotating adds the angle to the module position, texts and pads and keeps angles within one full turn, and rotating back restores them.",
 ["inputs"], "all modules, all coordinates and angles within one turn on an exactly representable grid, all layers; texts mirrored or without justification",
 "No test flips or rotates anything.",
 ["src/footprint/data.rs"],
 [("Flip implementations", "src/footprint/data.rs"), ("Rotate implementations", "src/footprint/data.rs")],
 ["Module::flip, Module::rotate"])

prop("C18", "Footprint convention checks report exactly the violated rules",
 "Checking a footprint against the library convention reports a finding for each rule that the footprint violates and none for the rules it satisfies: presence, size, thickness, visibility and layer of the reference, value and second reference texts, courtyard line, and surface mount attribute missing or given without need.",
 ["inputs", "configurations"], "all footprints over the attributes the rules look at, all configured text sizes",
 "No test runs the footprint checker.",
 ["src/footprint/data.rs", "src/checkfix.rs"],
 [("footprint rule checks", "src/footprint/data.rs")],
 ["Module::check"])

prop("C19", "Fixing a footprint repairs the findings and is idempotent",
 "After fixing a footprint that has a reference and a value text, checking it again reports no finding about text size, thickness, layers, courtyard or missing surface mount attribute; fixing it a second time changes nothing. "
 "A generated courtyard is a closed outline of 0.05 wide lines on the front that encloses all pads and fabrication drawings with the required margin, and parts the rules do not mention are left untouched.",
 ["inputs", "configurations"], "all footprints over the attributes the rules look at, coordinates on an exactly representable grid",
 "No test runs the fixer.",
 ["src/footprint/data.rs", "src/checkfix.rs", "src/lib.rs"],
 [("footprint fixer", "src/footprint/data.rs")],
 ["Module::fix then Module::check"])

prop("C20", "Symbol convention checks report exactly the violated rules",
 "Checking a symbol reports a finding for each rule its name, pins, fields and graphics violate and none for the rules they satisfy: pin positions on the 100 mil grid, pin lengths between 100 and 300 mil in steps of 50 mil, pin text sizes, visibility and the type of pins named NC anywhere in their name, line width and filling of rectangles, field text sizes and visibility, allowed name characters.",
 ["inputs", "configurations"], "all pins, fields and symbols, all coordinates, lengths and sizes",
 "No test runs the symbol checker.",
 ["src/symbol_lib.rs", "src/checkfix.rs"],
 [("symbol rule checks", "src/symbol_lib.rs"), ("allowed character rule", "src/checkfix.rs")],
 ["Symbol::check"])

prop("C21", "Editing component fields changes exactly what was asked",
 "Setting a component's reference or name changes both the component and its corresponding field, updating a named field changes its value and at most hides a user field, adding a field gives it a number not used before, starts it hidden in plain style and never disturbs existing fields, and add-or-update does the one when the field is missing and the other when it exists. "
 "All other data of the component is unchanged.",
 ["inputs", "histories"], "all components with any set of fields, all field names and values, sequences of edits",
 "No test edits a component.",
 ["src/schematic.rs"],
 [("field lookup and numbering", "src/schematic.rs")],
 ["Component::set_reference, set_name, update_field, add_or_update_field, add_new_field"])

prop("C22", "Lookups and in-place edits hit exactly the matching item",
 "Looking up or modifying a module, component, symbol, net, net class or setup entry by name acts on the matching item (the first of several) and only on it, reports absence when there is none, and counts match the items present. "
 "Every other item is left unchanged.",
 ["inputs"], "all documents with any number of items, names equal, different, or prefixes of one another",
 "No test uses the lookup functions.",
 ["src/layout/data.rs", "src/schematic.rs", "src/symbol_lib.rs", "src/footprint/data.rs"],
 [("linear searches by name", "src/layout/data.rs"), ("linear searches by name", "src/schematic.rs")],
 ["Layout::get_module, modify_module, Schematic::modify_component, component_by_reference, SymbolLib::find, Setup::get"])

prop("C23", "References sort by letter, then by number",
 "Sorting references orders them by their first letter and then by their numeric value, so that U2 comes before U101; only the first of a comma separated list of references counts.",
 ["inputs"], "all references with up to several digits, with and without further references after a comma",
 "No test sorts references.",
 ["src/lib.rs"],
 [("reference key", "src/lib.rs")],
 ["reference_ord"])

prop("C24", "Unnamed nets are recognised and renamed consistently",
 "A net name is recognised as an unnamed net exactly if it has the form produced for unnamed nets, and then yields the reference and pad it was made from; giving an unnamed net a new reference keeps the pad, and other names are refused.",
 ["inputs"], "all net names up to a bounded length, all references and pads without separators",
 "Two fixed names are tested.",
 ["src/layout/data.rs"],
 [("unnamed net pattern", "src/layout/data.rs")],
 ["NetName::is_unnamed_net, NetName::set_unnamed_net"])

prop("C25", "All components of a sheet hierarchy are collected, once per sheet",
 "Collecting the components of a schematic yields every component of the schematic and of all its sub-sheets, at any depth, each exactly as it stands in its file and once for every sheet that uses the file; a sub-sheet that cannot be read is reported as an error.",
 ["inputs", "fault_sequences"], "all sheet trees (no sheet contains itself) of bounded depth and width, with readable and unreadable sub-sheet files",
 "No test uses sub-sheets.",
 ["src/schematic.rs", "src/lib.rs"],
 [("sheet file resolution", "src/schematic.rs"), ("recursive collection", "src/schematic.rs")],
 ["Schematic::all_components"])

prop("C26", "Library locations expand environment variables exactly",
 "The expanded location of a library in a footprint library table equals its location with every referenced environment variable, plain or in braces, replaced by its value and a leading tilde by the home directory; replaced values are not expanded again, and an undefined variable is an error.",
 ["inputs", "configurations"], "all locations and environment values of bounded length",
 "No test expands a location.",
 ["src/fp_lib_table.rs"],
 [("expansion", "src/fp_lib_table.rs")],
 ["Lib::get_expanded_uri"])

prop("C27", "Parts of footprints compare equal exactly when they agree",
 "Two pads are equal exactly if name, kind, shape, size, position, rotation, delta, zone connection, drill, margins, clearance, thermal gap and the kinds of their layers agree, whatever their nets and the sides of their layers. "
 "Two reference texts are equal, and so are two value texts, whatever they hold; other texts, drawings, models and values are equal exactly if they are of the same kind and agree in content and the kind of their layer. "
 "Comparing the other way round gives the same answer.",
 ["inputs"], "all pairs of pads, texts, drawings and other elements, all finite numbers, bounded texts, optional attributes present or absent",
 "The round-trip tests compare a few footprints with themselves; a comparison that forgets an attribute makes them weaker without failing.",
 ["src/footprint/data.rs"],
 [("comparison of pads, texts and layers", "src/footprint/data.rs")],
 ["== and != on footprint elements"])

prop("C28", "Names are judged by their characters and findings are reported in full",
 "A name satisfies the naming rule exactly if every character is a letter A to Z or a to z, a digit, an underscore, a hyphen or a dot; otherwise there is one finding per other character, in their order, about that rule and that name and giving the character and its place in the name. "
 "A finding keeps the section, rule, part and message it was made with, a list of a single finding can be reduced to that finding, and reporting findings gives one line for each of them, in order, with the loudness of the finding. "
 "The ten sections of the guidelines are numbered 1 to 10.",
 ["inputs"], "all names up to a bounded length over all characters, all findings in lists nested to a bounded depth",
 "Two fixed names are tested and nothing is reported.",
 ["src/checkfix.rs"],
 [("naming rule", "src/checkfix.rs"), ("findings", "src/checkfix.rs")],
 ["is_allowed_1_7, allowed_1_7_items, CheckFixData"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
