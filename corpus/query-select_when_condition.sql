select case when false then 'hello' else 'world' end;