SETTINGS allow_suspicious_low_cardinality_types = true;

SETTINGS max_block_size = 65536;

SETTINGS output_format_json_quote_64bit_integers = 'true';

SETTINGS max_threads = 8, max_memory_usage = 10000000000, enable_optimize_predicate_expression = false;

SETTINGS allow_experimental_analyzer = true;
