MISSED = {
    "false-in-mixed-case": "Missed at first (BOOLEAN was asked of one spelling); caught by E04 since the case of each letter is an input.",
    "reset-connections-not-retried": "Missed at first (the stand-in for the retry did nothing); caught by R05 since it follows the predicate it is given.",
    "disk-refusal-unreported": "Missed at first (only the cloud adapters had faults); caught by R05 since writes to the disk can be blocked at each one.",
}
NOTES = dict(
    W01="the list of serialised records in append order, compared with the concatenation of the stored blobs; which commits fail is symbolic.",
    W02="lengths of stored blobs against the limit as linear arithmetic over symbolic record sizes.",
    W03="whether every accepted record is in a stored blob of the frame whenever a completion flag exists; failing commits and calls of finalize are symbolic.",
    W04="the product of the partition values of the record (each named value, sanitised), computed in the harness, against the folders in which the record is stored.",
    W05="the multiset of stored records against those whose append returned, over every interleaving of two threads and the eviction attendant at lock points, with failing commits.",
    W06="a direct statement of idleness and recency over symbolic last use times and capacity.",
    W07="names of two blobs with every pair of clock readings, random numbers fixed to the same value, so only mabel's own care separates them.",
    W08="the schema rules stated in the harness against whether the record was stored.",
    W09="the batches passed to the stand-in database: concatenation, sizes and transaction results.",
    W10="the folder of every stored blob must start with the dataset's folder; values over an alphabet with dots, slashes, NUL, backslash and control characters.",
    W11="a crash is an exception after any storage operation; what a reader then sees must be the previous complete frame or the new complete one.",
    R01="equality of records read with records written, through the real writer and reader.",
    R02="a set of frames with symbolic times and flags; the records of the latest complete frame of each partition, from a definition in the harness.",
    R03="the days (hours) of the range by date arithmetic against the folders read.",
    R04="the suffix of an uninterrupted read after the cursor's place, for every place.",
    R05="a dictionary of objects against what the adapter lists and fetches; page sizes and names symbolic.",
    R06="a list comprehension over the records as the specification; other blobs damaged in symbolic ways.",
    R07="the serial read; the order in which workers take and finish blobs is symbolic.",
    R08="the records stored under the folder whose value equals the filter's.",
    R09="the records the file was made of, by json, csv, zip, lzma and zstandard encoders of the harness.",
    D01="list operations in the harness.", D02="the list the data set was made from; batch and buffer limits patched small so symbolic sizes cross them.",
    D03="pairwise comparison of rows by value and type.", D04="grouping by pairwise comparison; sums and extremes as formulas over the symbolic values.",
    D05="order stated pairwise: nothing left out sorts before something returned.", D06="sum, minimum, maximum as formulas over the symbolic values present.",
    D07="lists by pairwise comparison of the field.", D08="equal rows as multisets; hash functions as injective symbols.",
    D09="the set of the kinds chosen for the rows looked at.",
    E01="the meaning of each operator over symbolic values, and of and/or/not over the truth of the comparisons, in the harness.",
    E02="the meaning of each operator stated in the harness; any of all.", E03="a matcher by recursion over pattern and text in the harness.",
    E04="each function restated by elementary means (slices, arithmetic, days since an epoch).",
    S01="list operations over the rows, from a structured form of the statement held by the harness.",
    S02="the clauses the text was assembled from; step limit for termination (an overrun is confirmed natively by a timeout).",
    S03="a character by character statement of the grammar; prefix comparison; reads recorded by the stand-in storage.",
    U01="datetime's own constructor over the digits.", U02="linear arithmetic over the symbolic parts.", U03="zero padded parts.", U04="interval of the range over all 64 bit numbers.",
    U05="logical statement of the rules; edit distance by recursion.", U06="escaping by substitution table; counts and columns of cells.",
    U07="explicit expected dictionaries with symbolic leaves.", U08="dictionary update.", U09="sums over the bins.", U10="the lines of the file which fails, numbered in the harness; words of what is shown against words given.")
