"""Which jobs decide which property, and how deep."""
import os

from common import build_cli, build_fault, build_rt, build_sanitized, run_rt, run_wasm, sanitizer_env

CATALOGUE = ("catalogues of 0 to about 330 (now and then up to 66,500) products drawn from the case seed: several alphabets (from two letters to arbitrary "
             "code points), text lengths around every boundary (0, 1, N-1, N, N+1, 100, 128 bytes …), shared, repeated and "
             "empty titles, vendors, tags and options, missing images, equal and extreme prices")
MODEL = "the reference model in rt/src/model.rs states the property independently of the code under test"


def native(quick, thorough):
    def job(result, prop, seed, deep):
        run_rt(result, build_rt(), prop, seed, thorough if deep else quick, deep)
    return job


def command(quick, thorough):
    def job(result, prop, seed, deep):
        run_rt(result, build_rt(), prop, seed, thorough if deep else quick, deep, env=dict(os.environ, RT_INDEXER=build_cli(), RT_FAULT=build_fault()))
    return job


def threads(rounds, quick, thorough, kind=None):
    """Processes with several threads each; what they load is never freed, so there is a new process for each round."""
    def job(result, prop, seed, deep):
        exe, env = (build_sanitized(kind), sanitizer_env(kind)) if kind else (build_rt(), None)
        for r in range(rounds * (thorough if deep else 1)):
            run_rt(result, exe, prop, seed, quick, deep, workers=4, env=env, trust=True, first=100 * r + (10 if kind == "thread" else 20 if kind else 0))
            if result.violations:
                break
    return job


def sanitized(kind, quick, thorough):
    def job(result, prop, seed, deep):
        if deep or quick:
            run_rt(result, build_sanitized(kind), prop, seed, thorough if deep else quick, deep, env=sanitizer_env(kind), tag="." + kind, first=50)
    return job


def browser(quick, thorough):
    def job(result, prop, seed, deep):
        run_wasm(result, prop, seed, thorough if deep else quick, deep)
    return job


BROWSER = ("the WebAssembly build of the working tree, run in Node through an independent reading of the wasm-bindgen interface "
           "(wasm/glue.js), on index files the native build makes for generated catalogues")
GLUE = "wasm/glue.js stands for the JavaScript wasm-bindgen would have generated"


def plan(jobs, rule, assumptions=(), needed=()):
    return {"jobs": jobs, "rule": rule, "assumptions": list(assumptions), "needed": list(needed)}


PLANS = {
    "C01": plan([native(25, 400)],
                CATALOGUE + "; indexed with N from 1 to 9, and a third of them augmented with further features of every type and further "
                "orderings. Non-trivial: two or more products with text.",
                [MODEL, "descriptions compare up to the storage limit, which C19 decides"],
                ["queries_compared", "options_compared", "tags_compared", "as_built", "augmented"]),
    "C02": plan([native(20, 300)],
                "values of every serializable type drawn from boundary-biased distributions (around each power of two and of 128, all "
                "string and list lengths near 128, NaN payloads), each followed by random tails; every strict prefix decoded. "
                "Non-trivial: the encoding is longer than one byte.",
                ["encodings of usize are exercised on a 64-bit target here; C21 exercises the 32-bit one"],
                ["prefixes_tried", "id_list", "f32", "u64", "map_string_list"]),
    "C05": plan([native(25, 400)], CATALOGUE + "; N from 1 to 17, as built and as loaded; and texts of up to 35 million characters for N = 2. Non-trivial: some product has text.",
                [MODEL, "weights compare up to the rounding of 32-bit floats"], ["tree_nodes_compared", "as_built", "as_loaded"]),
    "C06": plan([native(25, 400)], CATALOGUE + "; texts repeated across products at rates around 80 %, N from 1 to 17. Non-trivial: "
                "two or more products with text.", [MODEL], ["listings_compared", "runs_left_out", "runs_with_repetition"]),
    "C07": plan([native(25, 400)], CATALOGUE + "; windows taken from product texts, with 0 to 3 mistakes, or unrelated; N from 1 to 9. "
                "Non-trivial: some gram is reachable from the window.",
                [MODEL, "grams whose confidences differ by less than 0.01 % count as tied, so either may be returned"],
                ["windows_literal", "windows_corrected", "windows_unresolvable", "windows_unique", "windows_of_low_confidence"]),
    "C08": plan([native(25, 400)], CATALOGUE + "; queries cut from product texts, with mistakes, unrelated or short; N from 1 to 9. "
                "Non-trivial: the search has results.",
                ["the gram each window resolves to is the one search_gram reports, which C07 decides"],
                ["searches", "results", "windows_resolved"]),
    "C09": plan([native(20, 300)], CATALOGUE + ". Non-trivial: two or more products.",
                ["the input products are read by this harness's own writer of the JSON"],
                ["products_compared", "products_without_image", "some_have_images"]),
    "C10": plan([native(20, 300)], CATALOGUE + "; toggle histories through CategoryHandler on the built and on the loaded index. "
                "Non-trivial: two or more options.", [], ["memberships_compared", "toggles", "options"]),
    "C11": plan([native(20, 300)], CATALOGUE + "; toggle histories through TagHandler on the built and on the loaded index. "
                "Non-trivial: two or more tags.", [], ["memberships_compared", "toggles", "tags"]),
    "C12": plan([native(20, 300)], CATALOGUE + ". Non-trivial: two or more products.",
                ["prices are finite decimals"], ["positions_compared", "equal_prices", "equal_titles"]),
    "C19": plan([native(20, 300)], "texts with spaces and characters of one to four bytes placed around the limit, limits from 0 to a "
                "few hundred; and descriptions of catalogues after loading. Non-trivial: the text is longer than the limit.",
                [MODEL], ["cut_at_space", "cut_in_word", "stored_whole", "descriptions_in_an_index"]),
    "C22": plan([native(20, 300)], CATALOGUE + "; N from 1 to 17, chains from every root and from characters that do not occur. "
                "Non-trivial: the chain is longer than one.", [MODEL], ["chain_steps", "empty_chains"]),
    "C23": plan([native(20, 300)], "ids of arbitrary text ending in 0 to 19 digits, directly and through an index. Non-trivial: the id "
                "ends in a digit.", ["ids ending in 20 or more digits do not fit and are out of scope"],
                ["digits_00", "digits_01", "digits_19"]),
    "C24": plan([native(20, 300), browser(15, 150)],
                CATALOGUE + "; 20 or so questions of every kind, asked over and over in random orders and interleaved with new ones, natively under "
                "a counting allocator and in the browser build, whose memory and JavaScript values are counted. Non-trivial: two or more products.",
                [GLUE, "memory that stops growing within some hundred rounds is bounded", "what a load takes is not a question's doing"],
                ["questions_asked_again", "new_questions", "searches_with_results", "browser_questions_asked_again", "browser_new_questions", "browser_listeners_called"]),
    "C25": plan([native(20, 300)], CATALOGUE + "; vendors that are much alike, one, or hundreds. Non-trivial: two or more vendors.", [],
                ["vendors_compared", "strange_names_looked_up", "products_of_shared_vendors"]),
    "C26": plan([native(20, 300)], "feature sets grown value by value in any order, of every type, with similar names and extreme values, on their own "
                "and within an index, before and after loading. Non-trivial: two or more features.",
                ["a feature holds values of one type only"],
                ["values_compared", "text_columns", "float_columns", "integer_columns", "short_columns", "values_in_an_index"]),
    "C03": plan([native(35, 500), browser(15, 150)],
                "byte strings: arbitrary, forged field by field with hostile lengths, ids and floats, spliced from two index files, "
                "mutated index files, deep chains, and every kind of prefix of valid files; loaded on a 1 MB stack under an allocation "
                "ceiling and then queried in every way. Non-trivial: more than 8 bytes.",
                ["the ceiling is 32 MB plus 1 KB per input byte"],
                ["forged", "mutated", "spliced", "deep", "prefixes_rejected", "loaded_and_queried", "rejected", "whole_files_loaded", "edited",
                 "hostile_files_in_the_browser_build", "loaded_in_the_browser_build", "products_of_hostile_files"]),
    "C04": plan([browser(30, 400)], BROWSER + ": random sequences of loads of 2 to 4 catalogues and of bytes that are no index, everything "
                "served compared with the current catalogue after each load, and handles, iterators, cursors, products, tags and suggestions "
                "kept from earlier loads compared with theirs. Non-trivial: the search asked has results.", [MODEL, GLUE],
                ["nothing_served", "good_loads", "bad_loads", "answers_of_the_current_load", "checks_of_older_handles", "finished_cursor",
                 "finished_tags", "finished_categories", "finished_suggestion", "objects_of_other_loads_used"]),
    "C13": plan([browser(30, 400)], BROWSER + ", half of them with further integer, float and string features some products lack: filters "
                "with bounds and exact values on and around the values present, of the right and of the wrong type, and unreadable ones. "
                "Non-trivial: some matches are kept and some are not.", [MODEL, GLUE],
                ["filter_from", "filter_to", "filter_between", "filter_exact_number", "filter_exact_string", "filter_unconstrained", "filter_odd_bounds",
                 "unreadable_filters", "filters_met_a_product_without_the_feature", "kept", "dropped"]),
    "C14": plan([browser(30, 400)], BROWSER + ": searches with any combination of toggled options and tags, filters, orderings and letter "
                "case, judged by the reference model and by the native build's confidences. Non-trivial: two or more results.", [MODEL, GLUE],
                ["ranked", "ordered", "recased", "with_options", "with_tags", "with_options_and_tags_and_results", "unknown_orderings",
                 "interleaved_cursors", "results_judged_by_model"]),
    "C15": plan([browser(30, 400)], BROWSER + ": random histories of registering, removing and toggling over three handlers and seven "
                "listeners, some of which throw or call back into the handler at work; calls compared with a multiset model. "
                "Non-trivial: two or more listeners are due.", [GLUE],
                ["toggles", "calls", "toggles_with_more_than_64_calls", "removals", "calls_of_repeated_registrations", "toggles_with_throwing_listeners",
                 "toggles_with_reentrant_listeners"]),
    "C16": plan([native(20, 300), browser(10, 100)], "0 to 200 tag names of 0 to 25 (now and then 300) characters in several scripts, many of them alike; queries of "
                "0 to 5 (now and then 45) words derived from them by substitution, omission, insertion, truncation, extension and punctuation; natively and in the browser "
                "build. Non-trivial: the query has three or more characters.", [MODEL.replace("rt/src/model.rs", "rt/src/props/tags.rs"), GLUE],
                ["suggestions", "no_suggestion", "inexact_suggestions", "suggestions_beyond_ascii", "suggestions_late_in_the_query", "browser_queries"]),
    "C17": plan([native(25, 300), browser(10, 120)], CATALOGUE + ", spelled with any mix of escapes, field orders, white space and "
                "additional fields, natively and in the browser build; and texts that are no catalogue. Non-trivial: two or more products.",
                [MODEL, GLUE, "the keys of products are unique, and so are their ids"],
                ["spellings_indexed", "escapes_met", "other_texts_refused", "spellings_indexed_in_the_browser_build",
                 "other_texts_refused_in_the_browser_build", "wasm_files_compared_natively"]),
    "C18": plan([command(30, 400)], "the release build of the indexer program run in scratch directories: " + CATALOGUE + ", spelled in any way; "
                "test.json missing, unreadable or no catalogue; out.test absent, stale, larger or a directory; other files beside it; files "
                "limited to every size around that of the index, with and without the signal; killed before, half-way through or "
                "refused (by a preloaded library) any one of the calls that change the file system; killed after 0 to 40 ms, and run again; "
                "two indexers at once, one of them perhaps stopped. "
                "Non-trivial: two or more products, a refusal, or a fault that stopped the program.",
                [MODEL, "standard output is writable", "the file system renames atomically"],
                ["catalogues_indexed", "test_json_is_no_catalogue", "test_json_is_missing", "test_json_is_not_UTF_8", "out_test_is_a_directory",
                 "two_at_once", "ended_by_signal_before_replacing", "write_errors_reported", "over_an_earlier_index", "over_a_larger_out_test",
                 "faults_injected", "one_of_two_stopped", "runs_after_a_stopped_one"]),
    "C20": {**plan([threads(4, 5, 15), threads(3, 7, 15, "thread"), threads(2, 6, 10, "address")],
                "episodes of 2 to 12 threads loading small and larger indexes and bytes that are none, asking for categories, tags and suggestions, "
                "keeping handles and passing tags on, indexing into the global and into a shared allocator and allocating from it, with "
                "random pauses; in the plain build and in builds instrumented by ThreadSanitizer and AddressSanitizer (standard library "
                "included). Non-trivial: some call was answered during a load; distinct by who did what in which order, seeing what.",
                ["a call takes effect at some moment between its start and its end, as measured by one relaxed atomic clock",
                 "15 s without a step while every thread sleeps is a deadlock",
                 "handlers with listeners hold JavaScript values and stay in one thread"],
                ["loads", "bad_loads", "racing_loads", "calls_answered_during_a_load", "answered_nothing_loaded", "handles_rechecked",
                 "tags_passed_on", "references_checked", "indexes_built"]),
            "technique": "runtime monitoring: ThreadSanitizer and AddressSanitizer over stress workloads, an offline linearizability check of the "
                         "recorded history of loads and answers, and online monitors of handles, references and progress"},
    "C21": plan([browser(35, 400)], BROWSER + "; and index files the browser build makes, loaded natively and compared with native "
                "indexing. Non-trivial: two or more results or products.", [MODEL, GLUE],
                ["options_compared", "tags_compared", "searches_compared", "results_compared", "feature_values_compared",
                 "wasm_files_compared_natively", "products_met"]),
}
