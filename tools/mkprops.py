#!/usr/bin/env python3
"""writes properties.jsonl (kept as a script so that the list stays readable)"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe) or ["the saved .xlsx parts", "public API return values"], "hook_needed": None}})

p("C01", "A1 cell and range references are exact and invertible",
  "For every row and column inside the worksheet limits, the A1 references produced (relative, absolute, single cell, range, sheet-qualified) denote exactly that cell or range, so no two cells ever share a reference. Converting a column number to letters and back is the identity. The references written in a saved file for cells, merges and the sheet dimension are those of the cells the user wrote.",
  ["inputs"], "all rows 0..1,048,575 and columns 0..16,383, and all pairs of them for ranges",
  "The existing tests sample a few dozen columns and ranges; the claim is about every one of 2^34 cells and all pairs.",
  ["src/utility.rs", "src/worksheet.rs"], [("column_number_to_name / column_name_to_number", "src/utility.rs:65"), ("row_col_to_cell, cell_range", "src/utility.rs:144")])
p("C02", "Every saved part is well-formed XML whatever text the user supplies",
  "Whatever text the user supplies, in any place the API accepts text (cells, formulas, headers, names, comments, properties, titles, alt text, validation messages, table headers and so on), every XML part of the saved file is well formed and contains only characters XML allows. A reader that decodes XML gets back, in element text and in attribute values, the characters the user supplied; characters XML cannot carry appear as their _xHHHH_ escape.",
  ["inputs"], "all strings in every text-accepting position of the API, including control characters, markup, entity look-alikes and non-characters",
  "Tests use a handful of strings in a handful of positions; the claim is for all strings in all positions.",
  ["src/xmlwriter.rs", "src/worksheet.rs", "src/vml.rs", "src/drawing.rs", "src/styles.rs", "src/core.rs", "src/table.rs"], [("escape_attributes, escape_xml_data, escape_string", "src/xmlwriter.rs:129"), ("xml_start_tag / xml_data_element", "src/xmlwriter.rs:35")])
p("C03", "Strings written to cells are read back exactly",
  "Every string stored in a cell, plain or as a rich string, is read back from the saved file by a conforming reader character for character: leading and trailing blanks, line breaks, control characters, and text that looks like an _xHHHH_ escape or like markup included. Each string cell refers to the shared string holding its own text, and equal texts share one entry.",
  ["inputs", "histories"], "all strings of up to 32,767 characters and all sequences of string writes",
  "Tests compare single golden files for a few strings; the round trip must hold for all strings and for any number and order of distinct and repeated strings.",
  ["src/xmlwriter.rs", "src/shared_strings.rs", "src/shared_strings_table.rs", "src/worksheet.rs"], [("escape_xml_escapes", "src/xmlwriter.rs:274"), ("SharedStringsTable::shared_string_index", "src/shared_strings_table.rs:39"), ("xml_si_element whitespace handling", "src/xmlwriter.rs:95")])
p("C04", "Worksheet names: exactly the valid ones are accepted, and quoted safely",
  "A worksheet name is accepted exactly when it is non-empty, at most 31 characters, has none of the characters []:*?/\\ and neither starts nor ends with an apostrophe; saving fails when two sheets have names equal ignoring case. When a sheet name is used in a generated range it is quoted, with apostrophes doubled, whenever it would otherwise be read as something else (a reference, a number, an operator), and unquoting gives the name back. Naming a sheet never panics.",
  ["inputs"], "all names and all sets of names",
  "Tests list selected names; the claim is over all strings, and the quoting rules have many corner cases (A1 and R1C1 look-alikes, digits first, emoji, punctuation).",
  ["src/utility.rs", "src/worksheet.rs", "src/workbook.rs"], [("validate_sheetname", "src/utility.rs:904"), ("quote_sheet_name / unquote_sheetname", "src/utility.rs:628"), ("check_unique_sheet_names", "src/workbook.rs")])
p("C05", "Calendar dates and times convert to the right Excel serial number",
  "For every valid date from 1900 to 9999 (and every valid date of the 1904 epoch) the serial number is the exact day count of the Excel calendar, including its phantom 29 February 1900, plus the time of day as a fraction of a day accurate to the millisecond. Invalid years, months, days, minutes and seconds are rejected with an error. Parsing a date or time string gives the same value as building it from its parts.",
  ["inputs"], "all year/month/day combinations representable in the arguments, and all hours, minutes and seconds",
  "Tests list a few hundred dates; the claim covers all of the roughly three million days and all rejected combinations.",
  ["src/datetime.rs"], [("to_excel_from_ymd_hms", "src/datetime.rs"), ("from_ymd, and_hms, parse_from_str validation", "src/datetime.rs")])
p("C06", "Unix timestamps convert to the right calendar date and time",
  "For every Unix timestamp in the supported range the resulting date and time is the Gregorian calendar date and time of that instant, and its Excel serial number is that instant's day number plus fraction. The timestamps written into the document properties are the calendar form of the instant the user set or of the save.",
  ["inputs"], "all second-resolution timestamps in the accepted range",
  "Tests list a few thousand dates; leap-century and year-block boundaries need every block checked.",
  ["src/datetime.rs"], [("unix_time_to_date_parts", "src/datetime.rs"), ("is_leap_year", "src/datetime.rs")])
p("C07", "The cell grid is last-write-wins, bounded, and untouched by rejected writes",
  "After any sequence of writes, formats and clears, each cell of the saved sheet holds the last accepted value written to it and all other cells are as they were; rows and cells appear once and in ascending order, and the sheet dimension covers all used cells (exactly the bounding box of the cells written, when only cells are written). A write outside 1,048,576 rows by 16,384 columns, or of an over-long string, returns an error and changes nothing in the sheet.",
  ["inputs", "histories"], "all sequences of cell operations at all positions",
  "Tests write each cell once in order; overwriting with another type, clearing, formatting blank cells and failing writes in arbitrary order are histories that unit tests sample thinly.",
  ["src/worksheet.rs"], [("check_dimensions and insert_cell", "src/worksheet.rs"), ("store_number/string/blank/... and clear_cell", "src/worksheet.rs"), ("write_data_table", "src/worksheet.rs")])
p("C08", "Every cell, row and column keeps exactly the format it was given",
  "For any set of formats in use, the style referenced by each cell, row or column in the saved file has exactly the font, fill, border, alignment, number format and protection of the Format it was written with, and a cell without one has the default style. Equal formats share one style record and different formats never do; counts and indices in the style part are consistent.",
  ["inputs", "histories"], "all combinations of format properties and all orders of using them",
  "Tests save a workbook with one or two formats; wrong sharing shows only for particular pairs of formats used in particular orders.",
  ["src/format.rs", "src/workbook.rs", "src/styles.rs", "src/worksheet.rs"], [("Format equality keys and xf indices", "src/format.rs"), ("format_xf_index, prepare_fonts, prepare_fills, prepare_borders, prepare_num_formats", "src/workbook.rs"), ("Styles writer", "src/styles.rs")])
p("C09", "Merged ranges and tables never overlap",
  "No saved worksheet has two merged ranges, two tables, or a merged range and a table that share a cell: every overlapping request, and a single-cell merge, returns an error. Requests that do not overlap anything are accepted and appear with exactly the requested range.",
  ["inputs", "histories"], "all sequences of merge and table requests over all ranges",
  "Tests try a few overlapping pairs; overlap has many geometric cases (containment, crossing, touching edges, shared corners) and accumulates over a history.",
  ["src/worksheet.rs"], [("CellRange::overlaps / check_overlap in merge_range and add_table", "src/worksheet.rs")])
p("C10", "Tables are internally consistent with their cells",
  "In every saved table the range, header, autofilter and column list agree: one column per worksheet column, ids 1..n, header names unique ignoring case and equal to the text of the header cells (unless overwritten later), total row labels and functions in the total row cells. Table ids and names are unique in the workbook, and invalid tables (too small, duplicate headers or names) are rejected.",
  ["inputs", "histories"], "all table ranges, header/total row settings and column configurations, and any number of tables in a workbook",
  "Tests use particular tables of fixed size; the agreement between table part and cells is a relation over all configurations.",
  ["src/table.rs", "src/worksheet.rs", "src/workbook.rs"], [("Table::initialize_columns and range adjustments", "src/table.rs"), ("add_table / prepare_worksheet_tables", "src/worksheet.rs")])
p("C11", "Every saved package is closed and complete",
  "In any saved workbook every part has a content type, every relationship target that is internal exists in the package exactly once, every relationship id used in a part is defined by that part's relationships and has the matching type, ids are unique, and no part is left unreferenced. This holds for any mix and order of images, charts, tables, notes, form controls, hyperlinks, background images and header images on any worksheets, with chartsheets (which carry only their chart and page settings) among them.",
  ["inputs", "histories"], "all combinations of features on all sheets in any order",
  "Tests exercise one feature or a few fixed combinations; numbering of parts and relationship ids depends on the whole mix.",
  ["src/packager.rs", "src/workbook.rs", "src/worksheet.rs", "src/relationship.rs", "src/content_types.rs"], [("Packager::assemble_files and PackagerOptions", "src/packager.rs"), ("prepare_drawings, prepare_vml, prepare_tables", "src/workbook.rs")])
p("C12", "Row heights and column widths are what the user set",
  "For every row and column, the saved height, width, hidden, format and outline settings are those last set for it and the default otherwise; each column is described by exactly one column record and each row by one row record. Widths and heights given in pixels give a file size that a spreadsheet displays as that many pixels, and unset columns and rows keep the default size.",
  ["inputs", "histories"], "all rows and columns, all widths and heights in range, any order and combination of settings",
  "Tests check a few widths; merging of equal neighbouring columns into one record depends on the whole pattern of settings.",
  ["src/worksheet.rs"], [("set_column_width(_pixels), set_row_height(_pixels), default sizes", "src/worksheet.rs"), ("write_cols run merging, pixel conversions", "src/worksheet.rs")])
p("C13", "Inserted objects are anchored where the user put them",
  "For every image, chart, shape or control inserted at a cell and offset, the saved anchor denotes the cell and in-cell offset that lie at that pixel position, and its end denotes the point exactly the object's width and height further on, given the sheet's column widths, row heights, hidden rows and columns. In-cell offsets never exceed the cell they lie in.",
  ["inputs", "histories"], "all cells, offsets, sizes and all row height / column width settings made before saving",
  "Tests use default or a few custom sizes; the anchor walks an unbounded number of rows and columns of arbitrary sizes.",
  ["src/worksheet.rs", "src/drawing.rs"], [("position_object_pixels / position_object_emus", "src/worksheet.rs"), ("row_pixel_size / column_pixel_width", "src/worksheet.rs")])
p("C14", "Formulas are stored as written, apart from required function prefixes",
  "A formula reads back as the text the user wrote without its leading equals sign or array braces, except that functions Excel requires to be prefixed get the prefix exactly once when prefixing applies. Text inside string literals and names that merely contain a function name are never altered, already prefixed functions stay unchanged, and the formula's result, array range and dynamic-array flag are those requested.",
  ["inputs"], "all formulas built from function calls, names, references, literals and operators",
  "Tests check one formula per function; interactions of literals, nesting, names and prefixes are over all formulas.",
  ["src/formula.rs", "src/worksheet.rs"], [("Formula::expand_formula / escape_future_functions / tokenising", "src/formula.rs"), ("store_formula", "src/worksheet.rs")])
p("C15", "Protection passwords and options are recorded faithfully",
  "For every password the stored hash is the 16-bit legacy hash the format defines, so the spreadsheet accepts exactly that password; an empty password stores no hash. Every protection option is recorded as set, and unset options keep their documented defaults.",
  ["inputs"], "all passwords of up to 255 characters and all combinations of protection options",
  "Tests compare a handful of hashes; the hash must be right for every length and byte value.",
  ["src/utility.rs", "src/worksheet.rs", "src/protection.rs"], [("hash_password", "src/utility.rs:1094"), ("protect_with_password, write_sheet_protection", "src/worksheet.rs")])
p("C16", "Autofilters hide exactly the rows that fail their conditions",
  "After saving, a data row inside an autofilter range is hidden exactly when at least one filtered column of it fails that column's condition, and rows outside the range and the header are never hidden by the filter. A condition is met as documented: text is compared ignoring case and surrounding blanks, numbers and dates as numbers, and blank or other cells only meet conditions on blanks. The recorded filter criteria are those the user last gave for each column since setting the range, in any order of giving the conditions and the data.",
  ["inputs", "histories"], "all filter conditions (lists, blanks, comparisons, patterns, and/or pairs) over all data in any order of calls",
  "Tests use one data table with fixed conditions; the predicate must agree for all cell types, missing cells, and pairs of conditions.",
  ["src/filter.rs", "src/worksheet.rs"], [("hide_autofilter_rows, row_matches_*", "src/worksheet.rs"), ("FilterCondition", "src/filter.rs")])
p("C17", "Saving does not change the workbook: saving again gives the same file",
  "Saving a workbook any number of times without changing it in between gives files with the same parts and the same content, and saving, changing and saving again gives the same content as making the change before a single save. Saving never panics.",
  ["histories"], "all histories of building, saving and modifying a workbook",
  "Tests save once; state left behind by a save shows only in a second save of particular feature mixes.",
  ["src/workbook.rs", "src/worksheet.rs", "src/packager.rs", "src/table.rs"], [("Workbook::reset, Worksheet::reset", "src/workbook.rs"), ("prepare_* steps of save_internal", "src/workbook.rs")])
p("C18", "Constant-memory worksheets hold the same data as ordinary ones",
  "For any data and row and column settings given in row order, each before its row is flushed, a worksheet in constant-memory or low-memory mode is saved with the same cell values, formats, row settings and sheet-level features as an ordinary worksheet (apart from features that need the flushed data at save time, such as autofit, autofilter row hiding and chart data caches). Writing to a row that has already been flushed changes nothing that was flushed.",
  ["inputs", "histories"], "all row-ordered sequences of writes and row settings, with or without string de-duplication",
  "The two modes use separate writing code; tests compare a few fixed files.",
  ["src/worksheet.rs"], [("flush_to_row / write_constant_table_row", "src/worksheet.rs"), ("insert_cell for constant memory", "src/worksheet.rs")])
p("C19", "Hyperlinks lead where the user said",
  "For every URL written to a cell the saved link resolves to that target (web, mail, internal location or file), with only the escaping that URLs require and nothing escaped twice; the cell displays the URL or the given text, and tip text is kept. Invalid or over-long URLs are rejected, and repeated targets may share a relationship but never lead elsewhere.",
  ["inputs", "histories"], "all URLs and sequences of URL writes",
  "Tests list typical URLs; escaping, splitting at # and relationship sharing must hold for all strings and sequences.",
  ["src/url.rs", "src/worksheet.rs", "src/xmlwriter.rs"], [("Url::initialize, Url::parse_url", "src/url.rs"), ("escape_url", "src/xmlwriter.rs:139"), ("store_url, prepare hyperlinks", "src/worksheet.rs")])
p("C20", "Image files are measured correctly and never crash the program",
  "For every byte sequence given as an image, creating the image either succeeds or returns an error; it never panics or hangs. For a valid PNG, JPEG, GIF or BMP the type and pixel width and height are those the file header declares, the resolution is the one a PNG or JPEG header declares and 96 otherwise, and the bytes saved in the package are the bytes supplied.",
  ["inputs"], "all byte sequences",
  "Tests use well-formed sample images; truncated and adversarial files are unbounded.",
  ["src/image.rs"], [("process_png/jpg/gif/bmp", "src/image.rs"), ("unpack_u16/u32 helpers", "src/image.rs")])
p("C21", "Page setup is recorded as set",
  "Manual page breaks are recorded as the sorted set of distinct valid break positions, zero never being one; out-of-range breaks and too many breaks are errors and valid lists never panic. Margins, orientation, paper, scale or fit, print options, repeat rows/columns, headers and footers are recorded as last set, with documented defaults and limits, and repeat/print ranges name the rows and columns given.",
  ["inputs", "histories"], "all lists of breaks and all combinations of page settings in any order",
  "Tests set one option at a time with typical values.",
  ["src/worksheet.rs"], [("set_page_breaks / set_vertical_page_breaks / process_pagebreaks", "src/worksheet.rs"), ("page setup setters and writers", "src/worksheet.rs")])
p("C22", "Colours are recorded exactly",
  "Every colour given as RGB number, named colour, HTML-style string or theme colour with shade is written as exactly that colour in every place colours are used (fonts, fills, borders, tabs, charts, conditional formats), including the luminance or tint values of theme shades. Values that are not valid colours fall back to the documented default.",
  ["inputs"], "all 24-bit RGB values, all strings, all theme colour and shade pairs",
  "Tests check a few colours; the mapping is over 2^24 values and all strings.",
  ["src/color.rs"], [("rgb_hex_value, argb_hex_value, theme_attributes, chart_scheme", "src/color.rs"), ("From<u32>, From<&str>", "src/color.rs")])
p("C23", "Defined names are valid, complete and correctly scoped",
  "Each accepted name is recorded once with the formula and the sheet scope the user gave, together with print areas, print titles and autofilter ranges of the right sheets; they are in the order the application requires. Invalid names and unknown sheets are rejected with an error, and no name ever causes a panic.",
  ["inputs", "histories"], "all name strings, formulas and sheets in any order",
  "Tests define a few typical names.",
  ["src/workbook.rs", "src/worksheet.rs"], [("define_name", "src/workbook.rs"), ("DefinedName, prepare_defined_names, sort name", "src/worksheet.rs")])
p("C24", "Data validations and conditional formats keep their rules and limits",
  "A data validation or conditional format is saved with the ranges, rule, operands and options the user set; limits the application imposes (title 32, message 255, list text 255 characters, and number and date bounds) are enforced by an error or ignored with the documented warning, never by writing a file that violates them. Priorities of conditional formats are distinct and in order of addition, and each refers to its own format.",
  ["inputs", "histories"], "all rules, operands, lengths and ranges in any order",
  "Tests compare one rule per file; the limits are about all lengths (in characters, not bytes) and all mixes.",
  ["src/data_validation.rs", "src/conditional_format.rs", "src/worksheet.rs"], [("DataValidation setters", "src/data_validation.rs"), ("validate, rule writers", "src/conditional_format.rs"), ("store_validation / add_conditional_format", "src/worksheet.rs")])
p("C25", "Autofit makes every column wide enough and no wider than needed",
  "After autofit each column's width is that of the widest cell content in it, by the application's character width table plus padding, capped at the maximum, and never below a width the user set explicitly before autofit when so documented; columns without data keep their width. The width of a text is the sum of its characters' widths for the widest of its lines.",
  ["inputs", "histories"], "all cell contents in all columns",
  "Tests check a few strings and one workbook.",
  ["src/utility.rs", "src/worksheet.rs"], [("pixel_width, cell_autofit_width", "src/utility.rs:1040"), ("autofit, update_max", "src/worksheet.rs")])
p("C26", "Row spans, outline levels and grouping are consistent with the sheet",
  "The span recorded for each row covers every cell of its block of 16 rows and no more than the block needs. Grouping rows or columns raises the level of exactly the requested ones by one, to at most seven, collapsed groups are hidden with the collapse flag on the summary row or column, and the sheet records the maximum outline level.",
  ["inputs", "histories"], "all sets of cells and all sequences of grouping requests",
  "Tests use fixed layouts; spans and levels depend on the whole sheet.",
  ["src/worksheet.rs"], [("calculate_spans", "src/worksheet.rs"), ("group_rows, group_columns", "src/worksheet.rs")])
p("C27", "A saved workbook always has one active, visible sheet and consistent views",
  "In every saved workbook exactly one sheet is active, the active and first-visible indices are in range and refer to the sheets the user chose or the defaults, and the active sheet is not hidden. Sheet order, names, visibility and tab settings are as set; frozen panes and selections record exactly the requested cells.",
  ["inputs", "histories"], "all sequences of adding, hiding, activating, selecting and moving sheets, and all pane and selection settings",
  "Tests activate one sheet in fixed workbooks.",
  ["src/workbook.rs", "src/worksheet.rs"], [("set_active_worksheets", "src/workbook.rs"), ("write_panes, write_selections, write_sheet_view", "src/worksheet.rs")])
p("C28", "Numbers are read back exactly",
  "Every finite number written to a cell is read back from the saved file as the same double.",
  ["inputs"], "all 2^64 doubles", "Tests write a few numbers.",
  ["src/worksheet.rs"], [("write_number_cell uses the standard library's float formatting (or ryu/zmij)", "src/worksheet.rs")])
p("C29", "Parallel worksheet writing gives the same file as sequential writing",
  "Whatever the interleaving of the worker threads that assemble the worksheets, the saved file has the same content.",
  ["schedules"], "all thread schedules of a save", "Tests observe one schedule per run.",
  ["src/packager.rs", "src/workbook.rs", "src/shared_strings_table.rs"], [("thread::scope over worksheets, Arc<Mutex<SharedStringsTable>>", "src/packager.rs")])
p("C30", "I/O failures while saving are reported as errors",
  "If the destination fails at any point while a workbook is being saved, the save returns an error instead of succeeding or panicking.",
  ["fault_sequences"], "a write or seek fault at any point of the save", "Tests never inject faults.",
  ["src/packager.rs", "src/workbook.rs", "src/xmlwriter.rs"], [("ZipWriter results propagated with ?", "src/packager.rs")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
