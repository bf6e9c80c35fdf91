SELECT arrayConcat([1, 2], [3, 4], [5, 6]) AS res, f1["abc"] as f2
