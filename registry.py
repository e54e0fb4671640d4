#!/usr/bin/env python3
"""The single source of properties.jsonl and MANIFEST.json (run to regenerate both)."""
import json
import pathlib

HERE = pathlib.Path(__file__).resolve().parent
TECH = 'TLA+ specification checked with TLC; spec-generated and recorded executions of the real code validated against it with TLC'
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, note, ready=False):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mech=mech, observe=observe, note=note, ready=ready))


# ---------------------------------------------------------------- delimited text
prop('D01', 'Rows written under a dialect are read back unchanged',
     'Any sequence of rows written with a dialect (row by row, in bulk or as dicts; to a path, a handle or memory) becomes text '
     'which, read under the same dialect, gives exactly the same cell strings in the same order; the text uses the delimiter, quoting, first '
     'line terminator and encoding that the dialect object has at that moment. A row the dialect cannot represent is refused with an error and '
     'only the rows before it are in the output. (Documented exception: first cells starting with the comment prefix.)',
     ['inputs', 'configurations'], 'all rows of strings, all dialects, any split into write calls',
     'Tests round-trip a few fixed rows under a few dialects; the space of cell contents times dialect settings is unbounded.',
     ['src/csvw/dsv.py', 'src/csvw/dsv_dialects.py'],
     [('UnicodeWriter.writerow/writerows', 'src/csvw/dsv.py'), ('Dialect.as_python_formatting_parameters', 'src/csvw/dsv_dialects.py')],
     ['bytes written', 'rows read back'],
     'Exhaustive for all pairs of rows over a 8 character alphabet in the model; sampled (seeded, up to 400 rows) on the code.', True)
prop('D02', 'Reading selects, trims and cuts exactly the rows the dialect describes',
     'For every text and dialect, reading yields exactly the records of the text in order, minus the first skipRows records, minus records whose '
     'first cell starts with the comment prefix, minus blank records if skipBlankRows is set; each cell is trimmed as trim says and the first skipColumns cells are cut off. '
     'Comment records and non-empty skipped records are collected, in order, as comments. Text which is malformed under a CSVW dialect raises a csv error after the well-formed rows, never silently different rows.',
     ['inputs', 'configurations'], 'all texts (files, handles, lists of text or byte lines), all dialects',
     'Tests use a handful of fixture files; quoting, line breaks, comments, blank rows and skipping interact over arbitrary text.',
     ['src/csvw/dsv.py', 'src/csvw/dsv_dialects.py'],
     [('UnicodeReader.__next__', 'src/csvw/dsv.py'), ('Dialect', 'src/csvw/dsv_dialects.py')],
     ['rows', 'comments', 'errors'],
     'Exhaustive for all texts up to 4 characters (7 letter alphabet, 10 dialects), replayed on the code; random larger texts.', True)
prop('D03', 'Reported line numbers are physical line numbers',
     'When rows are read with line numbers, each row carries the 1-based number of the physical line of the source on which it ends, counting '
     'skipped rows, comments, blank lines and line breaks inside quoted cells; the same holds for the numbers kept with comments. '
     'Numbers strictly increase.',
     ['inputs', 'configurations'], 'all texts with LF or CRLF line ends, all dialects',
     'Tests check one multi-line fixture; numbering must survive every mix of multi-line cells, comments and skipped rows.',
     ['src/csvw/dsv.py'], [('UnicodeReader._next_row', 'src/csvw/dsv.py'), ('UnicodeReaderWithLineNumber', 'src/csvw/dsv.py')],
     ['line number of each row', 'line number of each comment'],
     'As D02; lone CR inside quoted cells is excluded.', True)
prop('D04', 'Dict and named-tuple views pair every cell with its header',
     'Reading as dicts pairs each cell with the header name at its position, in header order; missing trailing cells are None, surplus cells are kept '
     'as a list under the rest key, empty records are dropped, and given field names make the first record data. Named tuples carry the same values under the normalised names, or are refused if these are no distinct field names. '
     'Writing dicts emits the keys of the first dict as header exactly once per writer, only if nothing was written before.',
     ['inputs', 'histories'], 'all tables including ragged ones and duplicate names; all sequences of writer calls',
     'Tests cover one short and one long row; raggedness, duplicates and call sequences are not enumerated.',
     ['src/csvw/dsv.py', 'src/csvw/utils.py'],
     [('UnicodeDictReader.item', 'src/csvw/dsv.py'), ('NamedTupleReader', 'src/csvw/dsv.py'), ('UnicodeWriter.writerows', 'src/csvw/dsv.py')],
     ['dicts', 'named tuples', 'written header'],
     'As D02.', True)
prop('D05', 'Rewriting a file in place is all or nothing',
     'rewrite, add_rows and filter_rows_as_dict leave the file with its complete new content (every row visited once, in order, with its index, and replaced, kept or dropped '
     'as the visitor said; added rows after the existing ones) or, if reading, visiting or writing any row fails, byte for byte as it was. '
     'Until the operation completes the file shows its old content, and the number reported by the filter is the number of rows removed.',
     ['inputs', 'fault_sequences', 'histories'], 'all files, dialects, visitor behaviours including exceptions at any row, sequences of operations',
     'Tests run each operation once on a small well-formed file without failures.',
     ['src/csvw/dsv.py'], [('rewrite', 'src/csvw/dsv.py'), ('add_rows', 'src/csvw/dsv.py'), ('filter_rows_as_dict', 'src/csvw/dsv.py')],
     ['file content before, during and after'],
     'The step-by-step model includes crashes at every point; on the code failures are injected through visitors and malformed input.', True)

# ---------------------------------------------------------------- cells
prop('T01', 'A cell is interpreted by the nearest description of its column',
     'null, default, required, separator and datatype come from the column or, if not given there, from the schema, table or group, in this order. An empty '
     'cell becomes the default; a required cell which is null is refused; a cell equal to a null string is None; with a separator the cell is split, '
     'each item handled likewise, and an empty cell is the empty list; everything else is read by the datatype. Writing uses the same descriptions.',
     ['inputs', 'configurations'], 'all cell texts, all combinations of the five properties on the four levels',
     'Tests fix one level and one property at a time; the order in which null, default, required, separator and datatype apply shows only in combination.',
     ['src/csvw/metadata.py'], [('Column.read', 'src/csvw/metadata.py'), ('Description.inherit', 'src/csvw/metadata.py'), ('Column.write', 'src/csvw/metadata.py')],
     ['Column.read', 'Column.write'], 'Exhaustive in the model for cells up to 4 characters; on the code all cells up to 3 characters under every two-level combination, and random ones.', True)
prop('T02', 'Values are written so that reading gives the same value',
     'For every datatype and format, the text written for a value is the one the format prescribes, and reading this text with the same datatype gives '
     'exactly the same value (same number, instant and offset, bytes, tree, list with its missing items), whenever the format can express the value.',
     ['inputs', 'configurations'], 'all values of all datatypes under all supported formats, single or in lists',
     'Tests round-trip a few values per type; precision, signs, offsets, separators and formats interact over unbounded values.',
     ['src/csvw/datatypes.py', 'src/csvw/metadata.py'], [('to_string/to_python of each datatype', 'src/csvw/datatypes.py'), ('Datatype.formatted', 'src/csvw/metadata.py')],
     ['Datatype.formatted', 'Datatype.read'], 'Model exhaustive over grids of values and formats; random values on the code.', True)
prop('T03', 'Only values within all facets are accepted',
     'A value is accepted exactly if its length and its value satisfy every length, minLength, maxLength, minimum, maximum and inclusive or exclusive bound '
     'of its datatype, compared exactly (numbers by value, instants with their offset, durations in their partial order). '
     'Descriptions with contradictory, unreadable or inapplicable facets are refused.',
     ['inputs', 'configurations'], 'all datatypes, facets and values',
     'Tests check one facet with one value; off-by-one bounds, precision, timezones and combinations of facets are not enumerated.',
     ['src/csvw/metadata.py', 'src/csvw/datatypes.py'], [('Datatype.validate', 'src/csvw/metadata.py'), ('Datatype.__attrs_post_init__', 'src/csvw/metadata.py')],
     ['Datatype.fromvalue', 'Datatype.read'], 'All pairs of bounds over small values are exhaustive in the model and on the code.', True)
prop('T04', 'Numbers are read exactly and integer types have their ranges',
     'A text is accepted as decimal, integer (with the range of each of the thirteen integer types) or floating point number exactly if it is one under the declared decimal and group '
     'characters, and its value is exact, whatever its length; percent and per-mille signs scale it. Exponents, doubled group characters and foreign separators are refused for exact types.',
     ['inputs'], 'all texts, all decimal and group characters',
     'Tests check a few literals; every boundary of every type and every misplaced separator cannot be listed.',
     ['src/csvw/datatypes.py'], [('decimal.to_python', 'src/csvw/datatypes.py'), ('integer.to_python', 'src/csvw/datatypes.py'), ('float.to_python', 'src/csvw/datatypes.py')],
     ['Datatype.read', 'Datatype.formatted'], 'All texts of up to 3 (thorough: 5) characters over a number alphabet, all limits, random texts.', True)
prop('T05', 'Number patterns say which digits a number must have',
     'Under a number pattern a text is accepted exactly if it has at least the required integer digits, groups of the declared primary and secondary sizes and a '
     'fraction within the declared length; written numbers are rounded half-even to the pattern, grouped and padded as it says, with the declared separators and percent or per-mille scaling.',
     ['inputs', 'configurations'], 'all patterns from #, 0, comma, point and percent signs; all texts and numbers',
     'Tests check about a dozen pairs of pattern and number.', ['src/csvw/datatypes.py'],
     [('NumberPattern', 'src/csvw/datatypes.py'), ('decimal.to_string', 'src/csvw/datatypes.py')],
     ['Datatype.read', 'Datatype.formatted'], 'Model exhaustive over patterns and a grid of numbers; random ones on the code.', True)
prop('T06', 'Dates and times are read and written as their format says',
     'Under each supported date, time and datetime format, with fractions and timezone markers, a text is accepted exactly if it matches the format completely and denotes an existing '
     'date and time, and the value has exactly its fields and offset; writing fills in the same format. Unsupported formats and time stamps without timezone are refused.',
     ['inputs', 'configurations'], 'all formats listed in the CSVW recommendation times fractions and timezone markers; all texts and values',
     'Tests check a few formats with one value each.', ['src/csvw/datatypes.py'],
     [('dt_format_and_regex', 'src/csvw/datatypes.py'), ('dateTime._parse', 'src/csvw/datatypes.py'), ('dateTime.to_string', 'src/csvw/datatypes.py')],
     ['Datatype.read', 'Datatype.formatted'], 'Model exhaustive over all formats and a grid of values; random ones on the code.', True)
prop('T07', 'Strings, booleans, binary data, JSON, durations and URIs',
     'A boolean is one of exactly two declared (or four default) texts; a regular expression constrains the whole text; base64, hexadecimal, JSON (with schema), durations '
     'and URIs give exactly the value they denote and malformed ones are refused; normalizedString collapses white space to spaces; writing is canonical.',
     ['inputs', 'configurations'], 'all texts, formats and values of these datatypes',
     'Tests check one valid and one invalid literal per type.', ['src/csvw/datatypes.py'],
     [('boolean', 'src/csvw/datatypes.py'), ('string', 'src/csvw/datatypes.py'), ('json', 'src/csvw/datatypes.py'), ('duration', 'src/csvw/datatypes.py')],
     ['Datatype.read', 'Datatype.formatted'], 'Small regular expressions against all short texts; random ones otherwise.', True)
prop('T08', 'Reading a cell gives a value or a ValueError',
     'Whatever text a cell contains, reading it with any datatype, format and facets terminates with a value or with ValueError; no other exception escapes.',
     ['inputs'], 'all texts for all datatypes', 'Error handling in tables relies on ValueError; tests feed a few malformed texts.',
     ['src/csvw/datatypes.py', 'src/csvw/metadata.py'], [('to_python of each datatype', 'src/csvw/datatypes.py')],
     ['Datatype.read'], 'About 10^2 awkward fragments, each (thorough: each pair) for every datatype, and random mixtures.', True)

# ---------------------------------------------------------------- tables
prop('R01', 'Every cell is read by the column its header names',
     'When a table is read, a cell belongs to the column whose name, else title or property URL, is the header above it, whatever the order of the columns in the file; '
     'cells under unknown headers are kept as text, described columns missing from the file are None, virtual columns get their expanded value URL. '
     'Without header, or when reading leniently, cells belong to columns by position; missing required columns are an error.',
     ['inputs', 'configurations'], 'all headers and all column descriptions, any order, surplus, missing and unnamed columns',
     'Tests read a few fixtures whose header is the list of column names.', ['src/csvw/metadata.py'],
     [('Table.iterdicts', 'src/csvw/metadata.py'), ('Schema.get_column', 'src/csvw/metadata.py'), ('Column.header', 'src/csvw/metadata.py')],
     ['rows from Table.iterdicts', 'warnings'],
     'All headers of up to 3 words for 7 descriptions in the model, up to 2 words replayed on the code; random descriptions and files.', True)
prop('R02', 'Invalid rows are never passed on as valid',
     'Reading strictly stops with an error naming file, line and column at the first row with an invalid cell, after all rows before it; reading with a log reports every invalid '
     'or missing required cell and passes exactly the rows without any, with their line numbers; reading leniently passes every row, invalid cells as text, and warns if there is anything to warn about.',
     ['inputs', 'histories'], 'all files and descriptions, in the three modes',
     'Tests have one invalid cell per file; which rows survive which mode depends on all the cells.', ['src/csvw/metadata.py'],
     [('Table.iterdicts', 'src/csvw/metadata.py'), ('log_or_raise', 'src/csvw/metadata.py')],
     ['rows', 'log messages', 'errors', 'warnings'],
     'Step-by-step model of reading against the declarative one, all tables of up to 2 rows; the order of errors within a row is not compared.', True)
prop('R03', 'Tables and groups read back the rows last written',
     'Writing rows (dicts in any key order or sequences) to a table, or to all tables of a group at once, plain or zipped, writes the header and one line per row and returns their number; '
     'reading then gives the same values, whatever files were there before, and the files of other tables are left alone. Strict writing refuses unknown fields.',
     ['histories', 'inputs', 'configurations'], 'all sequences of writes and reads on the tables of a group, all values and dialects',
     'Tests write once to an empty directory.', ['src/csvw/metadata.py', 'src/csvw/dsv.py'],
     [('Table.write', 'src/csvw/metadata.py'), ('TableGroup.write', 'src/csvw/metadata.py'), ('TableGroup.read', 'src/csvw/metadata.py')],
     ['bytes of the files', 'rows read', 'return value'],
     'All histories of 2 writes on two tables in the model, replayed on the code; random histories of up to 6 operations.', True)
prop('R04', 'The primary key check finds exactly the duplicate keys',
     'check_primary_key holds exactly if no two valid rows have equal values (not equal texts) in all the columns of the primary key, in any column type including lists and several columns; otherwise it raises or, '
     'with a log, reports each row whose key occurred before, by line number.',
     ['inputs'], 'all tables with primary keys', 'Tests have one duplicate in one file.', ['src/csvw/metadata.py'],
     [('Table.check_primary_key', 'src/csvw/metadata.py')], ['verdict', 'log messages'],
     'All tables of up to 2 (thorough: 3) rows over equal-valued texts; random tables.', True)
prop('R05', 'Referential integrity holds iff every reference has its row',
     'check_referential_integrity succeeds exactly if each non-null foreign key of each valid row, or each item of a list-valued one, equals by value the referenced columns of some row of the referenced table; otherwise '
     'it raises or, with a log, reports exactly the dangling rows by file and line and returns False. In strict mode null references and ambiguous targets are not accepted either.',
     ['inputs', 'configurations'], 'all groups of tables with foreign keys: self-referring, cyclic, composite, list-valued, several per column',
     'Tests have one dangling reference each in three fixtures.', ['src/csvw/metadata.py'],
     [('TableGroup.check_referential_integrity', 'src/csvw/metadata.py'), ('TableGroup.foreign_keys', 'src/csvw/metadata.py')], ['verdict', 'log messages'],
     'All pairs of tables of up to 2 (thorough: 3) rows for three kinds of keys; random groups of up to 3 tables.', True)
prop('R06', 'Foreign keys are accepted iff they connect existing columns',
     'validate_schema raises exactly if some foreign key refers to an unknown table or column, pairs lists of different length or columns declared with different base types '
     '(in strict mode: columns without a name, too). Otherwise it is silent. add_foreign_key refuses exactly foreign keys of columns the table has no names for, and adds others to the description.',
     ['configurations'], 'all foreign keys between the tables of a group', 'Tests check three broken descriptions.', ['src/csvw/metadata.py'],
     [('TableGroup.validate_schema', 'src/csvw/metadata.py'), ('Table.add_foreign_key', 'src/csvw/metadata.py')], ['ValueError or not'],
     'All foreign keys between two tables of two columns, replayed on the code; random groups, to which foreign keys are added.', True)

# ---------------------------------------------------------------- JSON
prop('J01', 'JSON conversion emits exactly the tables, rows and cells described',
     'Conversion to JSON lists each table which is not suppressed with its annotations, notes and comments, and each of its rows with number, source line, titles and an object whose properties are exactly '
     'the non-null, non-suppressed cells and virtual columns, typed as JSON, with aboutUrl, propertyUrl and valueUrl expanded, resolved against the table and compacted. Converting neither changes the metadata nor later conversions; the command line tool gives the same.',
     ['inputs', 'configurations', 'histories'], 'all described groups, tables and plain CSV files, local and on the web',
     'The tests compare a handful of files; templates, inheritance, null values and datatypes interact freely.', ['src/csvw/jsonld.py', 'src/csvw/metadata.py', 'src/csvw/__main__.py'],
     [('CSVW.to_json', 'src/csvw/metadata.py'), ('Triple.from_col', 'src/csvw/jsonld.py'), ('to_json', 'src/csvw/jsonld.py'), ('format_value', 'src/csvw/jsonld.py')],
     ['JSON returned', 'JSON printed by csvw2json'],
     'All tables of two columns over a small vocabulary in the model, a sample of them on the code; random described groups.', True)
prop('J02', 'Objects described by the cells of a row state what the cells state',
     'If cells have subjects of their own, the objects given for a row, nested or not, contain together exactly one statement for each value of each cell: nothing is lost, doubled, attached to another object or turned into the text of a Python value. '
     'An object stands within another one exactly if that makes the only reference to it (of a circle of objects one stands for itself); the others, first the object of the row, stand side by side. Minimal mode gives the objects of all rows in order.',
     ['inputs', 'configurations'], 'all graphs of references between the objects described by a row',
     'The tests have acyclic examples with two or three objects.', ['src/csvw/jsonld.py'],
     [('group_triples', 'src/csvw/jsonld.py'), ('frame', 'src/csvw/jsonld.py'), ('CSVW.to_json', 'src/csvw/metadata.py')],
     ['JSON returned'],
     'Nesting of all graphs of 3 (thorough: 4) objects in any order in the model, one of each isomorphism class (thorough: all) on the code; random tables.', True)
prop('J03', 'Data is valid iff nothing contradicts its metadata',
     'is_valid holds exactly if the files can be read, the headers fit the columns, all cells are valid, no required cell is missing, primary keys are unique and named, and all foreign keys refer to exactly one row. '
     'The verdict is the same whatever the warning filters, for repeated calls and from the command line (exit code 0, else 1 or 2).',
     ['inputs', 'configurations', 'histories'], 'all described groups and tables, all warning filters',
     'Tests validate a few fixtures, each with one mistake.', ['src/csvw/metadata.py', 'src/csvw/__main__.py'],
     [('CSVW.is_valid', 'src/csvw/metadata.py'), ('csvwvalidate', 'src/csvw/__main__.py')], ['verdict', 'exit code', 'output'],
     'Key models as R05; random groups. Which metadata is warned about is not specified here.', True)

DBF = ['src/csvw/db.py']
prop('B01', 'Data written to a database is read back unchanged',
     'What Database.write or write_from_tg accepts is what read returns, from the same object or a new one for the same file: for each table the same rows, with equal values of the same types, null and the empty list being different. '
     'Lists, list-valued foreign keys included, keep number, order and content of their items. Neither the order of keys and tables passed nor any one-to-one translation of names makes a difference.',
     ['inputs', 'configurations', 'histories'], 'all schemas, datatypes, contents, name translations',
     'Tests write one or two rows per datatype, with strings as keys.', DBF,
     [('Database.write', DBF[0]), ('Database.read', DBF[0]), ('Database.select_many_to_many', DBF[0]), ('TYPE_MAP', DBF[0])], ['rows read'],
     'Random schemas (up to 4 tables, 22 datatypes) and contents. Not covered: names differing in case only, null in primary keys, decimals with more digits than a double, NUL characters, lists with empty items or items containing the separator.', True)
prop('B02', 'A database refuses exactly the data contradicting its schema, completely',
     'Writing succeeds iff no required value is missing, no primary key and no other key referred to occurs twice, all foreign keys (each column compared with its counterpart, each item of a list) refer to a row that exists, bounds and lengths are met by all scalar values, and no column is undescribed (unless told to skip these). '
     'Otherwise an exception is raised and none of the rows is stored. Foreign keys of a table to itself are enforced row by row on demand only.',
     ['inputs', 'configurations'], 'all schemas and contents',
     'Tests have one violation for each kind of constraint, in tables with one row.', DBF,
     [('ColSpec.check', DBF[0]), ('TableSpec.from_table_metadata', DBF[0]), ('insert', DBF[0]), ('Database.write', DBF[0])],
     ['exception or not', 'rows read'],
     'All contents of two related tables with up to 2 rows (model: stepwise insertion is equivalent to the constraints as a whole; a sample on the code); random schemas with mistakes planted in the data. Bounds on durations and items of lists are not enforced by design.', True)
prop('B03', 'Databases are set up for any acyclic group and replaced on demand only',
     'A database can be set up iff all tables referred to exist and references between different tables are not circular; tables may be described in any order and number. '
     'An existing file is left as is, with an exception, unless its replacement is asked for, then nothing of it remains. In-memory databases accumulate what is written; commands behave like the calls.',
     ['inputs', 'histories', 'configurations'], 'all graphs of references between tables, all sequences of writes and reads',
     'Tests have one foreign key and write each database once.', DBF + ['src/csvw/__main__.py'],
     [('schema', DBF[0]), ('Database.write', DBF[0]), ('csvw2sqlite', 'src/csvw/__main__.py'), ('csvw2datasette', 'src/csvw/__main__.py')],
     ['exception or not', 'bytes of the file', 'rows read'],
     'All graphs of 3 tables (model and code; thorough: model of 4), random larger ones and chains of 90 to 160 tables; random sessions of up to 4 writes.', True)

MDF = ['src/csvw/metadata.py', 'src/csvw/utils.py']
prop('M01', 'Metadata written is read back as the same description',
     'A description loaded from a file, URL or dict, written (with or without default values, any number of times) and read again is the same description: the same normal form, '
     'in which values equal to defaults are omitted and alternative notations unified, with nothing lost, added or reordered. The file written without defaults is exactly that normal form.',
     ['inputs', 'configurations', 'histories'], 'all descriptions accepted by the library, all repetitions of writing and reading',
     'Tests round-trip a few fixture files; there are about 100 properties at 7 levels with many notations.', MDF,
     [('asdict', MDF[0]), ('fromvalue', MDF[0]), ('TableLike.to_file', MDF[0]), ('NaturalLanguage.asdict', MDF[0]), ('Datatype.asdict', MDF[0])],
     ['description loaded', 'JSON written'],
     'All descriptions with one member of 38 kinds of values at 13 places (model; quick: a sample on the code); random descriptions of up to 3 tables. References to external schemas and dialects: see M04.', True)
prop('M02', 'Inherited properties come from the nearest level, also after changes',
     'The value of an inherited property of a column is the one of the nearest of column, schema, table and group which has one, else the default, whatever the order in which the levels are set or changed. '
     'A change is seen by exactly the columns below it without a nearer value, and written with the description; common properties are never inherited. Titles added to a column are part of its description; a column is called by its name, else by its first title without a language, else by its number.',
     ['inputs', 'histories'], 'all descriptions, all sequences of changes through the API',
     'Tests look at two properties at one level.', MDF,
     [('Description.inherit', MDF[0]), ('Column.inherit_null', MDF[0]), ('TableGroup.__attrs_post_init__', MDF[0])],
     ['inherited values', 'JSON written'],
     'All sequences of 2 (thorough: 3) changes of 11 properties in a group of 2x2 columns; random sessions. A value equal to the default counts as none.', True)
prop('M03', 'Invalid metadata is refused, or ignored with a warning and without effect',
     'Loading any JSON document either fails with ValueError, if the document violates a requirement on its structure (types of objects, names, references, keys, facets of datatypes, common properties), or gives a description: '
     'properties with unusable values or unknown names are then ignored, or replaced by the default, with a warning, exactly those; valid descriptions give no warning. No other exception ever occurs, neither then nor when rows are read, keys and references checked, or tables converted as described.',
     ['inputs'], 'all JSON documents',
     'The invalid documents of the test suites have one mistake each at one place.', MDF,
     [('validators', MDF[0]), ('Description.fromvalue', MDF[0]), ('Datatype.__attrs_post_init__', MDF[0]), ('ForeignKey', MDF[0]), ('Dialect', 'src/csvw/dsv_dialects.py')],
     ['exception', 'warnings', 'description loaded'],
     'All documents with one member of 38 kinds of values at 13 places, two (sampled) at 5 (thorough: 13) places; random documents with up to 3 mistakes. Left open: language tags outside a fixed list, formats of dates and booleans, falsy datatypes, headerRowCount together with header, multi-character delimiters.', True)
prop('M07', 'Metadata is located in the standard order and must describe the file',
     'For a CSV file on the web the metadata used is the first of: the file given by the caller, the typed describedby link, the locations of the site configuration in order (or the two default locations) which can be read, '
     'is a description and refers to the file; unsuitable candidates are skipped (with a warning if they claim to be metadata). Local files use FILE-metadata.json if there is one; JSON documents are metadata themselves; else the header row describes the table.',
     ['inputs', 'configurations'], 'all combinations of links, configurations, candidates and their contents',
     'Tests use three fixtures on a mocked web server.', MDF,
     [('CSVW.__init__', MDF[0]), ('CSVW.locate_metadata', MDF[0]), ('is_url', 'src/csvw/utils.py'), ('get_json', MDF[0])],
     ['tables', 'description chosen', 'warnings'],
     'All combinations of 4 links, 2 configurations and 6 kinds of documents at 3 places (model; quick: a sample on the code), random worlds. Not covered: several describedby links, query strings, local metadata which is no description.', True)

prop('M04', 'Links in metadata are resolved against the base URL of the document',
     'Table URLs and references to schemas and dialects are resolved as RFC 3986 says against the @base of the context if there is one (itself resolved against the location of the document, without query), '
     'else against that location, or the directory of local metadata, however the document is loaded (from_file, from_url, CSVW, as overriding metadata). Exactly those documents are requested; reading a table reads exactly the file at its URL, '
     'with the dialect of the table or else of the group; URI templates are expanded relative to the table.',
     ['inputs', 'configurations'], 'all locations, bases, references and ways of loading',
     'Tests load documents from one place, with plain relative names.', MDF[:1],
     [('resolve_links', MDF[0]), ('context_base', MDF[0]), ('Link.resolve', MDF[0]), ('TableLike.base', MDF[0]), ('TableLike.from_url', MDF[0]), ('TableLike.expand', MDF[0])],
     ['URLs requested', 'URLs of tables', 'schemas', 'rows read', 'templates expanded'],
     'All documents of one table with 4 locations, 7 bases, 9 references (model; quick: a sample on the code); random groups. Left open: @base in local documents, references of groups to schemas.', True)
prop('M05', 'Copying and writing table groups moves exactly their data and metadata',
     'Writing a group with a metadata path stores the given tables and the metadata there and nothing else; copying a group to a directory (created if needed) puts the data of every table, zipped or not, and the metadata there, '
     'so that the copy, and any group loaded from there, reads exactly what the original read, with the same description; afterwards the copy belongs to the new directory. '
     'Other directories and other group objects are never affected; missing directories or data are reported, and nothing is written elsewhere.',
     ['histories', 'inputs'], 'all histories of writes, group writes, copies and loads in several directories',
     'Tests copy one group once and look for one file.', MDF[:1],
     [('TableGroup.copy', MDF[0]), ('TableGroup.write', MDF[0]), ('Table.write', MDF[0]), ('TableGroup.read', MDF[0])],
     ['files of all directories', 'rows read', 'descriptions'],
     'All histories of 3 (thorough: 4) operations on 2 tables (one nested, one zipped) and 3 directories (one missing); random histories of up to 8 operations with arbitrary tables. Left open: copying onto itself, remote tables, data written before a failure.', True)
prop('M06', 'Data packages become table groups which read their files as the package says',
     'Converting a Frictionless data package (from a path, text or object) gives one table per resource with a schema, scheme "file" and format "csv", in order, at its path, read with its encoding and dialect (no comments unless stated). '
     'Each field becomes a column accepting exactly the texts the field accepts: type, formats of booleans and numbers, missing values, required, lengths, minimum and maximum (except of years), pattern; '
     'titles, descriptions and types are kept, as are primary keys and foreign keys (by resource name, or to the resource itself) and the annotations and the description of the package. '
     'The package is not altered; a group stored and loaded again behaves the same.',
     ['inputs', 'configurations'], 'all data packages with resources, fields, constraints, keys and dialects; all texts of their tables',
     'Tests convert one package and look at a few values.', ['src/csvw/frictionless.py'] + MDF[:1],
     [('DataPackage.to_tablegroup', 'src/csvw/frictionless.py'), ('convert_column_spec', 'src/csvw/frictionless.py'), ('convert_table_schema', 'src/csvw/frictionless.py'),
      ('convert_foreignKey', 'src/csvw/frictionless.py'), ('convert_dialect', 'src/csvw/frictionless.py'), ('TableGroup.from_frictionless_datapackage', MDF[0])],
     ['tables, columns and annotations of the group', 'rows read', 'verdicts on keys and references'],
     'Every field type with every constraint and a list of texts (model and code); random packages. Left open: formats of dates, bareNumber, only the first of several synonyms, references to unknown resources, several paths per resource, '
     'patterns on types other than strings and years.', True)
prop('M08', 'The markdown description states what the metadata says',
     'Converting a table group to markdown (csvw2markdown, metadata2markdown; from a path, or an object loaded in memory) gives its title and common properties and, for every table in order, an anchor, its URL (a link if the file is there), its properties, '
     'its dialect as it differs from the default, and one line per column: name (linked to its propertyUrl), datatype (own or inherited, with choices or regular expression, minimum and maximum), separator, description, '
     'whether it is in the primary key, and the column it references with a link to that table. Prefixed names are linked to what they stand for, values are escaped, images are shown. '
     'It does not fail for metadata which can be loaded and leaves the metadata as it was.',
     ['inputs'], 'all table groups and single tables with schemas, dialects, keys, inherited and common properties',
     'One test compares the description of one group with a file.', ['src/csvw/utils.py'] + MDF[:1],
     [('metadata2markdown', 'src/csvw/utils.py')],
     ['lines of the description', 'metadata before and after'],
     'Every feature alone and in pairs, random groups. Left open: "|" and line breaks in titles, composite foreign keys, several keys of one column, colliding anchors, bounds and lengths of other kinds, false values.', True)
prop('C01', 'The commands do, print and leave behind what was asked, or fail',
     'In any history of commands and edits of the data, whatever the form and order of the arguments: csvwvalidate exits with 0 and prints OK exactly if the data are valid, else prints FAIL with another status, and reasons exactly if asked (-v), which does not change the status; csvw2json prints the JSON of the data; '
     'csvw2sqlite exits with 0 exactly if the data can be stored, and then the database at the output path, new or replaced, contains exactly these data; csvw2datasette does the same for datasette.db in the output directory (by default the current one), refuses to replace one, and adds datasette-metadata.json with '
     'exactly the title, description and license of the data; csvwdescribe asks frictionless to describe exactly the given files with the given delimiter and prints the table group of the answer; wrong arguments are refused. '
     'No command changes any other file, and data which cannot be read leave existing databases as they are.',
     ['inputs', 'histories'], 'all data, metadata and arguments; all sequences of commands and edits in a directory',
     'Tests call the functions with parsed arguments, once per command, on fixtures without mistakes.', ['src/csvw/__main__.py'],
     [(n, 'src/csvw/__main__.py') for n in ['csvwvalidate', 'csvw2json', 'csvw2sqlite', 'csvw2datasette', 'csvw2markdown', 'csvwdescribe', 'parsed_args']],
     ['exit status', 'output', 'files before and after', 'content of databases', 'arguments of frictionless'],
     'All histories of two commands (three if thorough) on small data (model and code); random histories; some in processes of their own. frictionless is a stand-in which describes files by their headers. '
     'Left open: databases after a failed write, datasette for files without metadata, delimiters needing escapes in JSON.', True)

NA = 'the check for this property is still being built'


def main():
    with open(HERE / 'properties.jsonl', 'w') as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                             observe_at=p['observe'], hook_needed=None)), ensure_ascii=False) + '\n')
    checks = [dict(property=p['id'], quick_cmd='./run.py ' + p['id'],
                   thorough_cmd='VERIF_TIER=thorough ./run.py ' + p['id'],
                   technique=TECH, level='model_checking', level_note=p['note']) for p in P if p['ready']]
    man = dict(version=1, setup_cmd='./setup.sh', checks=checks,
               not_applicable=[dict(property=p['id'], reason=NA) for p in P if not p['ready']],
               notes='No hooks in /repo: everything is observed through the public API. Repairs of defects are the commits starting with "fix:".')
    (HERE / 'MANIFEST.json').write_text(json.dumps(man, indent=1, ensure_ascii=False) + '\n')
    for p in P:
        assert len(p['title']) <= 80, p['id']


if __name__ == '__main__':
    main()
