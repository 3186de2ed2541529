# further properties (executed by docs.py)
DS = I + "dictset.py"
SC = I + "storage_classes/"

prop("D01", "DictSet operations return exactly the rows they should",
     "For a data set over an iterator, a list or any storage class: select keeps every row reduced to the asked columns in that order, null where missing; filter keeps exactly the rows "
     "which satisfy it, in order; take, itake and first give the first rows and consume no others; get_items gives the rows at those places; collect_list and keys cover every row; "
     "sample gives some of the rows, in order, once each, and all of them for the fraction 1. Operations can be chained.",
     ["inputs"], "all rows (numbers, nulls, missing fields), thresholds, numbers of rows to take, places and random bytes, for each storage class",
     "the tests check a few operations on one fixed table, mostly held in memory",
     [DS, I + "dnf_filters.py"], [("projection", "DictSet.select"), ("selection", "DictSet.filter, DnfFilters"), ("limits", "DictSet.take, itake, first, get_items"),
                                  ("sampling", "DictSet.sample")])
prop("D02", "Every storage class keeps the rows it was given",
     "A data set persisted in memory, in compressed memory or on disk gives back exactly the rows it was made from, in order, however often it is iterated; its count, first row and "
     "rows by place agree with them, and reading does not change it, wherever the rows fall relative to the limits of batches and buffers.",
     ["inputs", "histories"], "all rows (numbers, text, booleans, nulls, nesting, no fields), numbers of rows relative to batch and buffer limits",
     "tests persist one fixed table, far from or well over the limits",
     [SC + "storage_class_memory.py", SC + "storage_class_compressed_memory.py", SC + "storage_class_disk.py", DS],
     [("batches", "StorageClassCompressedMemory._write_batches, _inner_reader"), ("buffer and flush", "StorageClassDisk.__init__, _read_file"), ("iteration", "DictSet.__iter__, __next__")])
prop("D03", "distinct keeps the first of each different row",
     "distinct, on the whole row or on columns, returns exactly the first row of each different combination of values, in order; rows are the same only if each value is, including its type "
     "(1 is not \"1\", null not missing) and whatever the order of their fields.",
     ["inputs"], "all pairs of rows of numbers, text, nulls and missing fields",
     "telling rows apart by text or hash goes wrong only for particular pairs of values",
     [DS], [("row identity", "DictSet.distinct")])
prop("D04", "Grouping and its aggregates are exact",
     "group_by makes one group for each different combination of the grouping values (null and missing alike) of exactly its rows; COUNT, MIN, MAX, SUM and AVG of a group are those of its "
     "non null values, null when there are none (COUNT zero); COUNT(*) is its number of rows; aggregations asked for together give what they give alone.",
     ["inputs"], "all rows and grouping values, aggregated values including zeros, nulls and missing ones, combinations of aggregates",
     "tests group one table with well separated keys and positive values",
     [I + "group_by.py"], [("group keys", "GroupBy._map"), ("aggregation", "GroupBy.aggregate")])
prop("D05", "sort_and_take returns the extreme rows in order",
     "sort_and_take returns as many rows as asked for, or all, each once, in order of the field (nulls lowest, or last when descending), and no row left out sorts before one returned.",
     ["inputs"], "all orders and ties of values, nulls and missing ones, numbers to take and both directions",
     "needs every order of arrival relative to the number of rows kept",
     [DS], [("bounded selection", "DictSet.sort_and_take")])
prop("D06", "Aggregates of a column are exact",
     "sum, min, max, min_max, mean, variance and standard_deviation of a column are those of the values it has, in whatever order they come and whichever rows lack it or hold a null.",
     ["inputs"], "all values and patterns of missing ones and nulls", "tests use one column of positive numbers", [DS], [("aggregates", "DictSet.sum, min, max, min_max, mean, variance, standard_deviation")])
prop("D07", "Collections by a field hold exactly its rows",
     "collect_set makes one collection for each value of the field, null where missing, holding exactly the other fields of its rows in order (each once when duplicates are removed), whatever kinds of values they have; counts, field values, "
     "aggregations, functions and selections of collections agree with them.",
     ["inputs"], "all rows and field values", "tests use one fixed table",
     [I + "collected_set.py", I + "group_by.py", DS], [("collection", "CollectedSet.__init__"), ("selection and counts", "CollectedSet.__getitem__, count, aggregate")])
prop("D08", "The hash of a data set ignores order only",
     "Two data sets with the same rows have the same hash whatever the order of the rows or of the fields of each; data sets of one row which differ have different ones (hash functions assumed free of collisions).",
     ["inputs"], "all rows and orders", "tests compare one pair",
     [DS], [("hash", "DictSet.__hash__")])

prop("D09", "The types of a data set are the kinds of its values",
     "For each field of the rows looked at, types names the one kind of value it has, numeric for integers with fractions, mixed for several kinds, and empty if it has none but nulls.",
     ["inputs"], "all combinations of kinds of values, nulls and missing fields, and numbers of rows to look at", "tests look at one data set with a single kind each",
     [DS], [("types", "DictSet.types")])

# ---- expressions and filters
EX = I + "expression.py"
RI = R + "internals/"
prop("E01", "A filter expression holds exactly for the records it describes",
     "An expression is evaluated as it is written: NOT before AND before OR, brackets first, every part counting; comparisons of numbers, text (letter by letter, quoted text exactly as it is), "
     "booleans, nulls and dates, IN, CONTAINS, LIKE, MATCHES and IS hold exactly when they should; a null or missing field has no order and differs from every value. "
     "Text which is no expression (unfinished, unbalanced, or with more after its end) is refused. An expression gives for a record the same whichever records it was evaluated for before.",
     ["inputs"], "all records (numbers, text, booleans, nulls, missing fields) for each operator, kind of literal and shape of combination",
     "tests evaluate some fifty fixed expressions on one fixed record",
     [EX, U + "token_labeler.py"], [("tokens", "token_labeler, Tokenizer"), ("evaluation", "Expression.evaluate")])
prop("E02", "DNF filters keep exactly the rows which satisfy them",
     "A filter in disjunctive normal form holds for a record exactly when all predicates of one of its lists hold; each operator has its meaning, a null or missing field satisfies none; "
     "an empty filter keeps everything. A filter gives for a record the same whichever records it was used for before.",
     ["inputs"], "all records, for each operator and nesting", "tests filter one fixed table with a few predicates",
     [I + "dnf_filters.py"], [("predicates", "evaluate, _inner_filter"), ("combination", "DnfFilters")])
prop("E03", "LIKE patterns match as in SQL",
     "LIKE holds exactly when the whole text is what the pattern says, in either letter case: % any text (also with line ends), _ one character, every other character itself; NOT LIKE is the contrary; "
     "a null is like nothing, and the answer does not depend on what was compared before.",
     ["inputs"], "every text up to three characters for each pattern", "a character special to regular expressions, a line end or an empty text changes the answer",
     [I + "dnf_filters.py"], [("patterns", "sql_like_fragment_to_regex, like")])
prop("E04", "Functions of a selection give what they say",
     "Each text, number and date function in a selection gives the value its name says for every argument (parts of texts, trimming, casing, lengths, rounding, limits, sorting, parts of dates, differences and "
     "additions of days, conversions, hashes), null for nulls (CONCAT, BOOLEAN and the hashes take them as text), and constants are taken as they are, under the name given to them. A selection gives for a record the same whichever records came before.",
     ["inputs"], "all texts up to three characters, numbers and dates in ranges", "tests call each function once or twice",
     [RI + "inline_functions.py", RI + "inline_evaluator.py"], [("functions", "FUNCTIONS"), ("evaluation", "Evaluator")])

# ---- SQL
SQ = RI + "sql_reader.py"
prop("S01", "A SQL statement gives exactly its rows",
     "SELECT with columns, functions, aliases, WHERE, GROUP BY, aggregates, HAVING, ORDER BY, LIMIT and subqueries, over data in several files, gives exactly the rows the statement asks for: the selected "
     "columns in order, filtered rows only, one row per group with the right aggregates, in the order and number asked for.",
     ["inputs"], "all values, nulls and missing values of three rows, and limits, for each of 22 statements and their filters",
     "tests count the rows of statements over fixed files",
     [SQ, I + "group_by.py", I + "dictset.py"], [("statements", "SqlReader"), ("groups", "apply_functions_on_read_thru, GroupBy")])
prop("S02", "Parsing a SQL statement always ends, with its clauses or an error",
     "Every sequence of words given as a statement is parsed or refused, the parser never runs forever; a statement is taken apart into its clauses with their text as it is, in any letter case, spacing, line "
     "breaks and comments.",
     ["inputs"], "all short sequences of words, all combinations of clauses", "tests parse well formed statements",
     [SQ], [("parser", "SqlParser.parse")])
prop("S03", "Only valid and allowed datasets are read",
     "The dataset of a statement is accepted only if it starts with a letter, has only letters, digits, dots, slashes, dashes and underscores and no repeated separators; with a list of allowed prefixes, a dataset "
     "outside it is refused through the reader, SQL and subqueries before any of it is looked at, and one inside it is read.",
     ["inputs"], "all dataset texts up to three characters (thorough five), all names and prefixes over a small alphabet", "the tests try a handful of names",
     [SQ, R + "reader.py"], [("validation", "SqlParser.validate_dataset"), ("prefixes", "Reader valid_dataset_prefixes")])

# ---- utilities
prop("U01", "Dates are read as written or not at all",
     "parse_iso gives the date and time its text says for every form it accepts, null for text which is no date (digits in every place of one, no signs, blanks or underscores) or a date which does not exist, never an error; date_range gives every hour of a range once, "
     "in order, and refuses a range which ends before it starts.",
     ["inputs"], "dates, times and separators in every accepted form, any character in any place, any hour range of two days", "boundary values and odd characters are not in the tests",
     [U + "dates.py"], [("dates", "parse_iso"), ("ranges", "date_range")])
prop("U02", "Time deltas are the sum of their parts",
     "parse_delta of a text of days, hours, minutes and seconds, any of them missing, is the time they add up to; of text without them, no time.",
     ["inputs"], "all numbers -99..99 for each combination of units", "the tests have a few fixed texts", [U + "dates.py"], [("deltas", "parse_delta")])
prop("U03", "Paths have the parts of their date",
     "Every placeholder of a path is replaced by its part of the date, in its width, the rest is kept; a path is taken apart into bucket, folders, name and extension which make it up again.",
     ["inputs"], "days around the ends of a year and of February, hours, names over small alphabets", "tests format one date",
     [U + "paths.py"], [("templates", "date_format, build_path"), ("parts", "get_parts")])
prop("U04", "Random values are in their range",
     "random_range gives a whole number of its range, every one of which can be drawn; random_choice one of the options; random_string a text of the length asked for.",
     ["inputs"], "every 64 bit random number and every range within -20..20", "a test draws a few numbers",
     [U + "entropy.py"], [("random values", "random_range, random_int, random_string, random_choice")])
prop("U05", "Parameters are checked before a reader is made",
     "A call is made exactly when every required parameter is given, every given one is known (also those a parameter brings) and no two exclude each other, with those parameters; otherwise it is refused and nothing is done. "
     "The distance used for suggestions is the edit distance.",
     ["inputs"], "all combinations of parameters, all pairs of words up to three letters", "tests try one wrong parameter",
     [U + "parameter_validator.py"], [("rules", "validate"), ("distance", "get_levenshtein_distance")])
prop("U06", "Tables show every value, and only as text",
     "The HTML table shows each of the first rows once, every value and column name of any type, escaped so that it cannot add markup; the text table shows each value under its column in lines of the same width.",
     ["inputs"], "all texts up to two special characters as values or names, rows with missing fields", "tests look for one value",
     [I + "display.py"], [("HTML", "html_table"), ("text", "ascii_table")])
prop("U07", "Records are flattened and reordered without loss",
     "flatten gives every leaf of a record once, under the path to it; selecting, ordering and setting fields give exactly these fields; the record given is not changed.",
     ["inputs"], "all leaves for eight shapes, all records of three fields", "tests flatten one record", [I + "records.py"], [("records", "flatten, select_record_fields, order, set_value")])
prop("U08", "Configuration is the file with the parameters over it",
     "build_context gives the content of the configuration file with the parameters given over it; a missing or malformed file is reported.",
     ["inputs"], "all overlaps of keys", "not tested", [U + "common.py"], [("context", "build_context")])
prop("U09", "A histogram counts every value once",
     "The bins of a histogram add up to the number of values, the least value is in the first bin, and its picture has a bar for each bin, blank exactly where there is no value; one bin, large numbers and numbers which are all the same included.",
     ["inputs"], "all values -6..6 for up to three values", "rounding puts the greatest value out of range only for particular values",
     [I + "histogram.py"], [("bins", "Histogram")])

prop("U10", "The picture of an error shows where it happened",
     "The picture of an error names the place of the error and of the errors it came from, each once, from the last handled to the failing line, with the lines of code within three of it which exist, "
     "with their numbers, the failing one marked, and the variables there with their values; lines wider than the picture are wrapped and keep every word.",
     ["inputs", "fault_sequences"], "errors at every line of files of up to 14 lines, alone or with causes, any variables and widths", "a test looks for one line of one error",
     ["mabel/errors/render_error_stack.py"], [("picture", "render_error_stack, _read_from_code"), ("wrapping", "wrap_text")])
prop("R09", "Every supported format gives all of its records",
     "JSON lines (plain, zstandard, LZMA), JSON, text, CSV, XML, lines of XML and ZIP files of them give every record they hold, as it is and in order, whatever line ends they use, blank lines between or not, and whether or not the last line is ended; "
     "a dataset whose files would not be read because of its name cannot be written.",
     ["inputs"], "numbers of records, texts with separators, quotes and line ends, line ends, members of ZIP files, XML structures",
     "tests read fixed files written by one tool",
     [RI + "decompressors.py", RI + "parsers.py", I + "xmler.py", RI + "parallel_reader.py"],
     [("formats", "decompressors, parsers, KNOWN_EXTENSIONS"), ("dead letters", "Writer.__init__, BaseInnerReader")])
