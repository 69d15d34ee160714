import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state,obs,hook=None):
    if len(title)>80: print(id,len(title),title)
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
      state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=obs,hook_needed=hook)))

FR=["fraos/src/database.rs","fraos/src/appender.rs","fraos/src/growable_mmap.rs","fraos/src/index_on_mmaps.rs","fraos/src/seqno.rs","fraos/src/flatfile.rs","fraos/src/seqno_iter.rs","fraos/src/shared_mmap.rs"]
FST=[("records","the sequence of records appended so far","fraos/src/database.rs"),("index","(offset,length) of each record","fraos/src/seqno.rs"),("chunks","inactive maps + one active map over the file","fraos/src/growable_mmap.rs")]
p("F01","The append-only log returns exactly the records that were appended, in order",
 "For every sequence of successful appends of non-empty records to one log (in memory or in a file), the sequence number returned for a batch is the number of records before it, reading number i returns exactly the bytes of the i-th appended record, and length, emptiness, last record and iteration from any position agree with that sequence. Reading or iterating from a number at or past the end, however large, yields nothing rather than an error or a panic. An empty batch changes nothing and returns no number.",
 ["inputs","histories"],"all record sizes (including ones that exactly fill or straddle an internal storage chunk), all batchings, all counts (including enough chunks to trigger map consolidation), in-memory and file-backed",
 "The existing quickcheck tests append two batches of tiny records and big_write uses one fixed 1 KiB record; record sizes around the 512 KiB chunk limit mixed with small ones, huge numbers and iteration from arbitrary positions are never sampled.",
 FR,[("append under write lock: data first, then index","fraos/src/database.rs:append_get_seqno"),("address to map lookup","fraos/src/index_on_mmaps.rs:find"),("chunk roll-over and consolidation","fraos/src/growable_mmap.rs:grow_and_apply, rearrange_mmaps")],FST,
 ["Database::append_get_seqno","put_seqno","get_by_seqno","iter_from_seqno","last","len","is_empty"])
p("F02","A rejected or failed append leaves the log unchanged and usable",
 "An append that returns an error, because the batch contains an empty record or because the operating system refuses to extend, map or synchronise a file at any point, leaves every record that was readable before readable and adds no record to the log. The log stays usable: a later append that succeeds gets the next sequence number and reads back exactly, now and after the log is reopened.",
 ["fault_sequences","histories","inputs"],"every position of the empty record in a batch; every file-system or mapping call of every append failing once, at every point of the history",
 "No test injects a failing system call, and the empty-record tests only look at one batch on an otherwise empty log.",
 FR,[("empty record rejected before any write","fraos/src/flatfile.rs:append, fraos/src/seqno.rs:append"),("sizes published only after success","fraos/src/appender.rs:append")],FST,
 ["Database::append_get_seqno","get_by_seqno","len","iter_from_seqno"])
p("F03","Concurrent appends are atomic and contiguous, and reads see them whole",
 "When clones of one log are used from several threads, every successful append gets a contiguous block of sequence numbers that no other append gets, the whole batch becomes readable at once, and after an append has returned every read started later sees it. No read ever returns bytes that are not exactly one appended record, a record once read never changes or disappears, and the length never shrinks and never counts an unreadable record.",
 ["schedules","histories"],"all interleavings of any number of appending, reading, iterating and length-querying threads",
 "The one concurrent test has a single writer and reads only records written before it started; no interleaving is controlled.",
 FR,[("write lock serialises appends","fraos/src/database.rs:append_get_seqno"),("storage RwLock","fraos/src/growable_mmap.rs"),("size published after the write","fraos/src/appender.rs:append")],FST,
 ["Database clones used from many threads"])
p("F04","Reopening a closed log yields the same log; read-only opening changes no file",
 "After all handles of a file-backed log are closed, opening it again, writable or read-only, gives a log with exactly the same records, and appending continues at the next sequence number. Opening read-only, reading and closing never modifies the content or size of any of the files, including while another handle is still writing to the same log, and a read-only handle shows the records that were acknowledged before it was opened.",
 ["histories","inputs"],"all histories of appends, clean closes, reopens and concurrent read-only openings, with all record sizes",
 "backup_test_storage reopens one fixed pattern of equal records five times; read-only opening is not tested on a live log at all.",
 FR,[("length recovered from the last index entry","fraos/src/database.rs:new"),("files shrunk to size on close","fraos/src/database.rs:drop"),("binary search for the end of an unshrunk index","fraos/src/seqno.rs:find_actual_end")],FST,
 ["Database::file","Database::file_readonly","file contents and sizes"])
p("F05","Killing the process at any point loses no acknowledged record",
 "If the process dies at any point of any history of appends, opening the log again succeeds and shows all records of all acknowledged appends, unchanged and in order, followed only by some leading records of the append that was in progress. The reopened log accepts further appends, which read back exactly and survive a further reopen.",
 ["crash_points","histories"],"a kill before or after every file-system or mapping call, and after any prefix of the index bytes of the append in progress has been stored; any record sizes; repeated crashes",
 "No test kills a process or opens a log whose files were not shrunk by a clean close, apart from a hand-written zero-tail file in the index tests.",
 FR,[("data is written before the index entry","fraos/src/database.rs:append_get_seqno"),("index end located by the last non-zero entry","fraos/src/seqno.rs:find_actual_end"),("files pre-extended with zeros","fraos/src/growable_mmap.rs:create_mmap")],FST,
 ["Database::file after a kill"])
p("F06","An acknowledged append is on stable storage before it is acknowledged",
 "When an append to a file-backed log returns success, everything needed to read its records after a power failure has been synchronised to the files: a copy of the files holding only the bytes and sizes that had been synchronised by then opens as a log that contains every acknowledged record.",
 ["crash_points","histories"],"a power failure after any acknowledged append of any history (no append in progress); any record sizes and chunk roll-overs",
 "Tests cannot see which bytes were synchronised; removing the synchronisation leaves every test passing.",
 FR,[("active map flushed before the size is published","fraos/src/growable_mmap.rs:grow_and_apply")],FST,
 ["image of the files limited to synchronised ranges at each acknowledgement"])
p("F07","Dropping one handle of a log never harms the other handles",
 "A log handle can be cloned, and iterators can be taken from it; dropping any of them at any moment does not change what the remaining handles and iterators read, does not lose data they append later, and causes no error or crash in them. After the last one is dropped, the files hold exactly the appended records, with nothing after them, also when an earlier process died without closing the log (bytes of an append that failed half-way may stay in the data file, where no record refers to them).",
 ["histories","schedules"],"all orders of cloning, dropping, appending and reading over any number of handles and iterators, including a drop while another handle is appending",
 "In the only test with a clone the clone is dropped after its last write; no test appends through a handle after another was dropped.",
 FR,[("shared state behind reference counts","fraos/src/database.rs"),("files shrunk to size on close","fraos/src/growable_mmap.rs:shrink_to_size")],FST,
 ["Database::clone","drop","append on the survivor","file sizes after the last drop"])

IL=["indexed-log-map/src/storage.rs","indexed-log-map/src/config.rs"]
p("L01","An indexed log map returns each key's latest value and keeps insertion order",
 "After any sequence of inserts, looking a key up returns the value most recently inserted for exactly that key (nothing for a key never inserted), iteration yields every inserted value in insertion order, iteration from a key starts at that key's latest value and continues to the end, and the element after a key is the one inserted directly after its latest value. The last value, emptiness and membership agree with that, and a map opened without key indexing refuses inserts, key lookups and the emptiness query but still iterates.",
 ["inputs","histories"],"all sequences of inserts with repeated and distinct keys, all key and value types and sizes, in memory and on disk",
 "Tests insert random distinct keys once each; repeated keys, lookups of never-inserted keys, and get_next on overwritten keys are not covered.",
 IL,[("append to the log, then key to sequence number","indexed-log-map/src/storage.rs:append"),("lookup through iter_from","indexed-log-map/src/storage.rs:iter_from, get, get_next")],
 [("log","values in insertion order","fraos database"),("key index","latest sequence number of each key","sled tree")],
 ["IndexedLogMap::append","get","contains","is_empty","iter","iter_from","last","get_next"])
p("L02","An indexed log map that is closed and opened again answers as before",
 "After a persistent indexed log map is closed, opening it again (with key indexing, read-only or not) gives the same answers to every lookup and iteration as before, and inserts continue after the old ones. Opening it without key indexing gives the same iteration and last value.",
 ["histories","inputs"],"all histories of inserts, clean closes and reopens in the three modes",
 "One test reopens a map once after inserting distinct keys; overwritten keys and mode switches are not covered.",
 IL,[("log and key index stored under one path","indexed-log-map/src/storage.rs:new")],[("key index","latest sequence number of each key","sled tree")],
 ["IndexedLogMap::new on an existing path"])
p("L03","Concurrent inserts leave each key pointing at its latest value in the log",
 "When several threads insert into one indexed log map, every insert appears exactly once in the iteration order, inserts that do not overlap appear in their real-time order, and once all inserts have returned, looking up a key returns that key's value that comes last in iteration order. A lookup that starts after an insert of a key has returned yields that value or one inserted later for the same key.",
 ["schedules","histories"],"all interleavings of concurrent inserts, in particular of the same key, with lookups and iteration",
 "The concurrent tests use one key per thread and never race two inserts of the same key.",
 IL,[("log append followed by the index update","indexed-log-map/src/storage.rs:append")],[("key index","latest sequence number of each key","sled tree")],
 ["IndexedLogMap::append and get from many threads"])

MV=["multiverse/src/lib.rs","multiverse/src/entry.rs","multiverse/src/variant.rs","multiverse/src/visitor/depth_ordered.rs"]
p("M01","A multiverse holds exactly the inserted, not yet removed variants and their tips",
 "After any sequence of insertions (parents before children) and removals, membership, lookup, the number of variants and emptiness agree with the set of variants inserted and not removed; the reported tips are exactly the variants without a present child. Inserting a variant that is already present changes nothing, and removing an absent one is reported as not found and changes nothing.",
 ["histories","inputs"],"all trees, all insertion orders with parents first, all interleaved removals and re-insertions, in memory and persistent",
 "Tests build a handful of fixed shapes with one insertion order and never remove an inner variant.",
 MV,[("insert links parent and child and updates tips","multiverse/src/lib.rs:insert"),("remove unlinks","multiverse/src/lib.rs:remove")],
 [("all","present variants by key","multiverse/src/lib.rs"),("tips, roots","variants without present child / parent","multiverse/src/lib.rs"),("ordered","keys by block number","multiverse/src/lib.rs")],
 ["Multiverse::insert","remove","get","contains","tips","len","is_empty","iter"])
p("M02","Best-block selection follows the longest chain; it discards only old blocks",
 "With longest-chain selection, the selected block is the ancestor, exactly the requested number of parent steps back, of a present variant with the greatest block number, and nothing is selected when that ancestor is not present. The discarded set is exactly the present variants whose block number is below the selected block's number less the age gap (none when nothing is selected), and the preferred fork tip is a tip with the greatest block number, or none when the multiverse is empty. Selection is a pure query and never panics.",
 ["histories","inputs"],"all trees and histories of insertions (parents first, a child's block number above its parent's), removals of any variants and repeated selections, all depths and age gaps",
 "Tests check three fixed chains with one fork; competing forks of the same length, selection after removals, age gaps at the limits and depth beyond the root are not sampled.",
 MV,[("longest chain, walk to depth","multiverse/src/lib.rs:select_best_block_longest_chain, ancestor"),("discarded by age","multiverse/src/lib.rs:select_best_block_longest_chain"),("preferred tip","multiverse/src/lib.rs:prefer_longest_chain_fork_tip")],
 [("ordered","keys by block number","multiverse/src/lib.rs"),("tips","variants without present child","multiverse/src/lib.rs")],["Multiverse::select_best_block","preferred_fork_tip","BestBlock"])
p("M03","A persistent multiverse reloads to the same tree, and domains are isolated",
 "Closing a persistent multiverse and loading it again from the same store and domain gives exactly the variants that were present and at or above the configured persistence height, with the tips and selections of that tree; removed variants do not come back. Insertions, removals, clearing and destroying in one domain never affect another domain of the same store, and a cleared or destroyed domain loads empty.",
 ["histories","inputs"],"all histories of insertions, removals, clears, destroys and reloads over several domains of one store, all block numbers over the 64-bit range and all persistence heights",
 "Tests reload one linear chain once, with one domain.",
 MV,[("write-through of inserts and removals","multiverse/src/lib.rs:db_insert, db_remove"),("load in block-number order","multiverse/src/lib.rs:load_from, mk_sled_key")],
 [("db tree","serialised variants by key","sled tree")],["Multiverse::open, load_from","clear","destroy"])
p("M04","Ordered traversal visits every reachable variant once, parents before children",
 "The depth-ordered traversal of a multiverse yields every variant that is present exactly once, in non-decreasing block number, so that a parent always comes before its children.",
 ["inputs","histories"],"all trees, including several roots and forks of any width, after any insertions and removals",
 "Only used by the examples and by chains with at most one fork in tests.",
 MV,[("frontier keyed by block number","multiverse/src/visitor/depth_ordered.rs")],[("frontier","not yet visited entries by block number","multiverse/src/visitor/depth_ordered.rs")],
 ["Multiverse::iter"])
p("M05","Holding on to variants handed out never changes the behaviour of the multiverse",
 "Keeping the shared handles that lookups and selections return, for any length of time and across removals and re-insertions of the same variants, does not change the answer of any later operation and never causes a panic.",
 ["histories","schedules"],"all histories in which a caller keeps or drops any of the handles it was given, interleaved with insertions, removals and selections",
 "No test keeps a handle across a removal.",
 MV,[("weak parent / strong child references","multiverse/src/entry.rs")],[("entry references","links between variants","multiverse/src/entry.rs")],
 ["Multiverse::get, select_best_block, remove, insert with handles held"])

US=["core/src/utxo_store.rs"]
p("C01","UTxO store listings, balances and order always match the UTxOs it holds",
 "After any sequence of insertions and removals, the store contains exactly the UTxOs inserted and not removed; for the main token and every other token the listed UTxOs are exactly those holding it, the token's balance is the exact sum of their quantities, a token no remaining UTxO holds has no listing and no balance, and ordered listings are sorted by that token's quantity and complete, including UTxOs of equal quantity. Every listed token is known with its policy and asset name.",
 ["inputs","histories"],"all UTxO sets (each UTxO listing a token at most once), all insertion and removal orders, equal values, zero and very large or fractional quantities",
 "Tests insert random distinct values and check ordering only; equal values with removals and shared tokens are not combined.",
 US,[("insert and remove keep main set, token sets, balances and order in step","core/src/utxo_store.rs")],
 [("utxos","main set","core/src/utxo_store.rs"),("by_policy_id","per-token sets","core/src/utxo_store.rs")],
 ["UTxOStore::get/iter/iter_ordered_by_wmain/iter_token*/get_balance_of/number_utxos_for_token","UTxOStoreMut::balance/token_balance"])
p("C02","UTxO store snapshots are immutable, and refused updates change nothing",
 "Thawing a store, changing the thawed copy and freezing it never changes the original or any other snapshot. Inserting a UTxO whose pointer is already present and removing one that is absent are refused with an error and leave every answer of the store unchanged.",
 ["histories","inputs"],"all trees of snapshots and edits, all refused operations at any point",
 "No test compares an old snapshot after later edits, or the store after a refused operation.",
 US,[("persistent maps shared between snapshots","core/src/utxo_store.rs:thaw, freeze")],[("utxos","main set","core/src/utxo_store.rs")],
 ["UTxOStore::thaw","UTxOStoreMut::freeze","insert","remove"])
p("C03","A balance behaves as the exact signed difference of what was added and removed",
 "A balance built from zero by adding and subtracting non-negative values, in any order and with owned or borrowed operands, or by adding balances, is balanced exactly when the total is zero, in excess by exactly the total when it is positive, and in debt by exactly its magnitude when it is negative.",
 ["inputs","histories"],"all sequences of additions and subtractions of any non-negative values, including zero, fractional and very large ones",
 "Tests check a dozen fixed one-step sums; crossing zero repeatedly, adding balances to balances and zero operands in every state are not covered.",
 ["core/src/balance.rs"],[("case analysis of debt, balanced, excess","core/src/balance.rs")],[("balance","debt, balanced or excess with magnitude","core/src/balance.rs")],
 ["Balance operators"])
p("C04","Value conversions and arithmetic are exact decimal arithmetic",
 "Parsing accepts exactly the non-negative decimals with at most the number of fractional digits of their unit and keeps the exact number; conversions between units multiply by the exact power of ten and converting back is lossless; addition, subtraction, multiplication by an integer, sums, comparison and equality agree with the exact numbers however they are written, and equal values hash alike. Truncation keeps exactly the integral part of a non-negative value, also when the value is large or was computed by a conversion.",
 ["inputs"],"all decimals of any magnitude and precision, all units, all chains of conversions",
 "Tests use fixed literals and quickcheck over small integers, which never reach the representations in which a value prints with an exponent.",
 ["core/src/value.rs"],[("scale by a power of ten","core/src/value.rs:scale"),("bounded parse","core/src/value.rs:derive_from_str"),("truncate","core/src/value.rs:truncate")],[("value","arbitrary precision decimal","core/src/value.rs")],
 ["Value::from_str","normalize/to_*/from_*","truncate","operators"])
p("C05","Number types never wrap: checked, saturating and parsing operations are exact",
 "For block numbers, slot numbers, output indices and timestamps, checked addition gives the exact sum or nothing when it does not fit in 64 bits, saturating operations give the exact result clamped to the range, ordering and conversion preserve the number, and reading from text or JSON (a number or, for block numbers, slot numbers and timestamps, a decimal string) accepts exactly the values of the 64-bit range and yields that value, and refuses everything else.",
 ["inputs"],"all 64-bit values and operands, all textual inputs around the range limits",
 "Tests sample random 64-bit operands, which almost never hit the limits, and compare against the same standard library call.",
 ["core/src/block_number.rs","core/src/slot_number.rs","core/src/output_index.rs","core/src/timestamp.rs","core/src/number_visitor.rs"],[("checked and saturating operations","core/src/block_number.rs, slot_number.rs, output_index.rs"),("number or string visitor","core/src/number_visitor.rs")],[("number","unsigned 64 bit","core/src")],
 ["checked_add/checked_next/saturating_*","FromStr","Deserialize"])
p("C06","Serialised core data reads back equal",
 "Every value, identifier, number, asset, UTxO, UTxO pointer and transaction that the library writes as JSON reads back as an equal item, and unknown or missing mandatory fields in transactions and assets are refused.",
 ["inputs"],"all contents, in particular values produced by any chain of conversions and arithmetic",
 "Round trips are tested for plain integers only.",
 ["core/src/value.rs","core/src/tx/utxo.rs","core/src/tx/transaction.rs","core/src/tx/transaction_asset.rs","core/src/number_visitor.rs"],[("custom number and decimal visitors","core/src/number_visitor.rs"),("derived serialisation","core/src/tx")],[],
 ["serde_json::to_string / from_str"])

SE=["utxo-selection/src/algorithms/largest_first.rs","utxo-selection/src/algorithms/random_improve.rs","utxo-selection/src/algorithms/thermostat.rs","utxo-selection/src/algorithms/balance_change_fee.rs","utxo-selection/src/algorithms/balance_change_single_output.rs","utxo-selection/src/common.rs","utxo-selection/src/algorithm.rs"]
p("S01","Largest-first selection takes the largest inputs and fails only when short",
 "Largest-first input selection picks UTxOs in descending value (for the missing main coin, or for the missing token, largest quantity of that token first), stops as soon as the outputs plus fee are covered, and succeeds whenever all available UTxOs together with the inputs already provided would cover the outputs and the fee; it fails only when the available UTxOs run out before the outputs and the fee are covered.",
 ["inputs"],"all sets of available UTxOs, outputs, fixed inputs, tokens and fee parameters",
 "Tests use fixed amounts with one or two tokens and never compare the number of selected inputs with the minimum.",
 SE,[("sorted candidates, loop until covered","utxo-selection/src/algorithms/largest_first.rs")],[("available inputs","unspent candidates","utxo-selection/src/algorithms/largest_first.rs")],
 ["InputSelectionAlgorithm::select_inputs"])
p("S02","Input selection only uses offered UTxOs, each at most once, and accounts exactly",
 "Every successful input selection returns chosen inputs that were offered as available, each at most once, removes exactly these from the remaining available inputs, and passes fixed inputs and fixed outputs through unchanged. The reported input and output totals, for the main coin and for every token, equal the sums over the inputs and outputs in the result. For largest-first and random-improve the reported fee equals the fee estimate for that transaction; for the thermostat it is at least that estimate. The result reports itself as balanced exactly when its inputs equal its outputs plus fee in the main coin and in every token.",
 ["inputs"],"all available sets, fixed inputs and outputs, tokens and fee parameters, for all selection algorithms and, where it is random, all random choices",
 "Tests check the chosen amounts of a few fixed examples; totals and fee bookkeeping are not compared with the result.",
 SE,[("bookkeeping of chosen inputs and balances","utxo-selection/src/algorithms")],[("input balance, output balance, asset balances","running totals","utxo-selection/src/common.rs")],
 ["InputSelectionResult","available_inputs"])
p("S03","A successful input selection covers the outputs and the fee",
 "When input selection succeeds, the total of the inputs in the result is at least the total of the outputs plus the fee for the main coin, and at least the outputs for every token, and that fee is at least the fee estimated for the transaction.",
 ["inputs"],"all available sets, outputs, tokens and fee parameters, for all selection algorithms and all random choices",
 "Tests assert success or fixed totals for a few examples; the random algorithm is run with a few draws.",
 SE,[("loop until covered","utxo-selection/src/algorithms")],[("balances","running totals","utxo-selection/src/common.rs")],["InputSelectionResult"])
p("S04","Balancing change conserves value and never creates a negative output",
 "When a change balancer succeeds, the total of all inputs equals the total of all outputs including change plus the fee for the main coin, and for every token the inputs equal the outputs including change; no change output is negative in the main coin or in any token, and change goes to the given change address. Balancing with one change output succeeds whenever a change address is given, no token is short, and the excess of the main coin pays for the fee including that of the change output; balancing by the fee succeeds whenever no token is left over and the main coin pays for the fee. Otherwise they report an error.",
 ["inputs"],"all excesses (including smaller than the cost of a change output), tokens, outputs and fee parameters",
 "Tests use ample excess.",
 SE,[("change output creation","utxo-selection/src/algorithms/balance_change_single_output.rs"),("leftover as fee","utxo-selection/src/algorithms/balance_change_fee.rs")],[("balances","running totals","utxo-selection/src/common.rs")],["InputSelectionResult of change balancers"])
p("S05","The adaptive (thermostat) selection produces a balanced transaction",
 "When the thermostat algorithm succeeds, inputs equal outputs plus change plus fee exactly for the main coin and inputs equal outputs plus change for every token; change goes only to the configured change addresses and no change output is negative.",
 ["inputs"],"all available sets, outputs, tokens, change addresses and thermostat parameters",
 "The crate's thermostat tests need a library that is not available and use fixed examples.",
 SE,[("balance state machine","utxo-selection/src/algorithms/thermostat.rs")],[("balance per asset","signed remaining amount","utxo-selection/src/algorithms/thermostat.rs")],["InputSelectionResult"])
p("S06","Consecutive selections from one pool never spend a UTxO twice",
 "Over any sequence of selections with one algorithm instance, successful or failed, a UTxO returned by a successful selection is not returned again and is no longer reported as available, and a failed selection does not make available UTxOs disappear.",
 ["histories","inputs"],"all sequences of selection rounds, with any outputs, mixing successes and failures",
 "Tests run one selection per instance.",
 SE,[("available inputs updated by selection","utxo-selection/src/algorithms")],[("available inputs","unspent candidates","utxo-selection/src/algorithms")],["select_inputs repeatedly","available_inputs"])

p("S07","An input selection that the pool plainly covers does not fail",
 "Input selection never panics, and it does not fail when the available UTxOs are plainly enough. Largest-first: fixed inputs and all available UTxOs together cover the outputs and the fee of spending them all. Random-improve: the same, and for each token asked for, and for the main coin, the UTxOs without other tokens that are asked for hold the outputs' amount even if each further output wastes the largest UTxO. Thermostat, given a change address: the fixed inputs and the UTxOs with only the token cover each token involved; the fixed inputs and the UTxOs without tokens cover the main coin of the outputs, the fee of spending them and those token UTxOs, and for each token involved the upper limit and fee of its change output; and the pool has no more UTxOs of a token involved than accumulators, or the transaction has no room for more inputs.",
 ["inputs"],"all available sets, fixed inputs, outputs, tokens, fee and thermostat parameters, and all random choices",
 "Tests assert success for a few examples with ample funds.",
 SE,[("loops that select until covered","utxo-selection/src/algorithms")],[("balances","running totals","utxo-selection/src/algorithms/thermostat.rs")],["InputSelectionAlgorithm::select_inputs"])

BS=["blockchain-source/src/multiverse/mod.rs","blockchain-source/src/multiverse/rollback.rs"]
p("B01","Slot, epoch and time conversions agree with the era parameters",
 "For every slot of an era, the slot is in the epoch and at the offset that the era's first slot, first epoch and epoch length define, consecutive slots advance by one slot or start the next epoch, and the time of a slot is the era's start time plus the slot length for each slot since the first; an epoch has as many slots as its length in seconds divided by the slot length. The parameters of the known networks start where their Byron eras (epochs of 21600 slots of 20 seconds, which is also how a Byron epoch and slot become an absolute slot) end.",
 ["inputs"],"all eras with positive lengths and a whole number of slots per epoch, and all slots (slots before the era have no epoch and no offset)",
 "Only a few mainnet slots are checked.",
 ["blockchain-source/src/cardano/time.rs"],[("integer arithmetic on era parameters","blockchain-source/src/cardano/time.rs")],[("era","first slot, first epoch, lengths","blockchain-source/src/cardano/time.rs")],["Era::*"])
p("B02","The confirmed-block source emits each confirmed block once, in chain order",
 "A source that releases only blocks below the confirmation depth emits, over any sequence of pulls and upstream forks shallower than that depth, a gapless chain: each emitted block's parent is the previously emitted one, every emitted block has at least the configured number of descendants upstream, and pulling again from the position before the last emitted block emits that block again. Stopping and starting again from the stored state continues with the same chain.",
 ["histories","schedules"],"all upstream histories with forks shallower than the confirmation depth, all pull positions, restarts at any point",
 "There is one linear test with a fixed depth and it is not part of the build available offline.",
 BS,[("insert upstream block, select best block at depth","blockchain-source/src/multiverse/mod.rs")],[("multiverse","blocks not yet confirmed","blockchain-source/src/multiverse/mod.rs")],["Source::pull"])
p("B03","The fork-handling source's events always lead the consumer along the best chain",
 "A consumer that applies the events of the fork-handling source (append a block, or roll back to a block) in order always holds a chain in which each block's parent is the one before it; every rollback names a block the consumer holds; and when the upstream stops producing and the queued events have been pulled, the consumer's chain ends at the newest block received.",
 ["histories","schedules"],"all upstream histories with forks within the confirmation depth of the highest block, all interleavings of upstream events and pulls, within one run of the source",
 "The existing tests cover one fork and need crates that are not available offline.",
 BS,[("common ancestor search and event queue","blockchain-source/src/multiverse/rollback.rs")],[("queue","events not yet pulled","blockchain-source/src/multiverse/rollback.rs")],["ForkHandlingSource::pull"])
p("B04","The node-backed source hands over each block after the position, once, in order",
 "The Cardano source turns a pull into one request to the node when none is under way: it hands over, in chain order and once each, every block of the node's chain after the highest position named (among those the node knows) up to the node's tip at that moment. Without named positions it starts at the configured position; from the position before genesis, the genesis block itself is handed over first. While a request is under way pulls are served from it, whatever positions they name; a pull that is given up loses nothing; cleared buffers are not served any more. News of the node's tip comes before the blocks of a request: with the first one that has blocks to hand over, and then not before the configured pace has passed. A pull answers 'nothing' only if the node has nothing after the position, knows no named position, has left the requested chain, or cannot be reached, at most once for each lost connection: the source connects again, and a client that names the blocks it was told gets the rest without gaps or repetitions. Block events carry the block's id, parent, number, slot, boundary flag, exact bytes, and its epoch (by the configured era after Byron, the block's own before). The position to go on from that such an event names is the block's own, and an event written as JSON reads back the same. A block that cannot be read is answered with an error, never skipped or a panic. Stopping ends the service.",
 ["histories","schedules","fault_sequences"],"all chains and forks of the node (slots growing), all positions named, all interleavings of node growth, pulls, abandoned pulls and cleared buffers, and connections lost, refused or held at every stage of a request",
 "The existing tests of this module need a public node on the internet or do not run; none of them loses a connection.",
 ["blockchain-source/src/cardano/mod.rs","blockchain-source/src/cardano/event.rs","blockchain-source/src/cardano/point.rs","blockchain-source/src/cardano/time.rs"],
 [("one request per channel","blockchain-source/src/cardano/mod.rs:CardanoSource::pull"),("positions in descending order, range fetch, first block ignored","blockchain-source/src/cardano/mod.rs:block_fetch"),("reconnection","blockchain-source/src/cardano/mod.rs:request_handler")],
 [("current","channel of the request under way","blockchain-source/src/cardano/mod.rs"),("last_tip_event","when news of the tip was last told","blockchain-source/src/cardano/mod.rs")],["CardanoSource::connect","pull","clear_buffers","stop"])
p("K01","CIP-14 asset fingerprints follow the standard for every policy and name",
 "The fingerprint of an asset is, for every policy id and asset name, the 20-byte blake2b hash of the policy id's 28 bytes followed by the asset name's bytes (the hash that CIP-14 encodes), written in lower-case hexadecimal and followed by zeros up to 64 characters. It does not depend on the case the hexadecimal input is written in, and input that is not hexadecimal, or a policy id of another length, is refused.",
 ["inputs"],"all policy ids and asset names of any length",
 "Tests use the few vectors of the standard.",
 ["cardano-utils/src/cip14.rs"],[("hash and bech32","cardano-utils/src/cip14.rs")],[],["Cip14 functions"])
p("K02","Conversion to and from the ledger's form keeps what a UTxO holds",
 "A UTxO or planned output converted to the ledger's form has the same address, coin, datum and script, an input the same transaction id, index and credentials kind; its quantity of every token is the total of what the UTxO lists for that token, however it is listed (in parts, in any order, next to other tokens of the same policy or name). An amount of 2^64 or more, a policy id, name, address or transaction id that is not valid is refused and never altered. A UTxO read from the ledger's form has its pointer, address, coin, datum and script.",
 ["inputs"],"all UTxOs and outputs with whole amounts that are not negative and any tokens; names of tokens read from the ledger are left out",
 "Tests cover two cases of reading from the ledger, none of writing to it.",
 ["cardano-utils/src/utxo.rs"],[("tokens gathered by fingerprint, then by policy and name","cardano-utils/src/utxo.rs")],[],["utxo_details_to_cml_input","utxo_builder_to_cml_output","utxo_details_from_io"])
p("K03","The thermostat's estimate is never below the ledger's size and fee",
 "While inputs, outputs and metadata are added to a transaction of a multisignature plan, the thermostat's estimated size is never below the size of the same transaction in the ledger's binary form with its script and as many signatures as the quorum, and the estimated fee never below the ledger's linear fee of that size; each part makes the estimate grow, and the fee quoted for a part beforehand is what adding it adds. The largest size of a transaction is the network's.",
 ["histories","inputs"],"all plans and networks; outputs with at most one token and no datum or script, output indices below 65536, metadata texts up to 64 bytes",
 "Tests compare the estimate with a few transactions.",
 ["utxo-selection/src/estimators/thermostat_estimator.rs"],[("running size and costs of one part","utxo-selection/src/estimators/thermostat_estimator.rs")],[("current_size and current cost","what the parts so far take","utxo-selection/src/estimators/thermostat_estimator.rs")],["ThermostatFeeEstimator::*"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
