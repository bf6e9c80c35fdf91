SELECT foo, bar.1, foo.2 FROM foo ARRAY JOIN m as bar