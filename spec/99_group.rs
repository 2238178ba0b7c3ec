pub broadcast group lib_lemmas { trim_slash, cnt_insert, cnt1_insert, skip_skip, last_at_fits, separator_fits, dir_clean, entry_names, sorted_by_id }
