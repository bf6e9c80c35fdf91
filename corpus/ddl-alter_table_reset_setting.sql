ALTER TABLE example_table RESET SETTING max_part_loading_threads;