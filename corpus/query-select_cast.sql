select cast(1 as Float64) as value;
select cast(1, 'Float64') as value;
select (1 as Float64) as value;
select 1::Float64 as value;
select cast(a + 1 as String) as value;
select cast(a + 1, 'String') as value;
select cast(-1 as Int8) as value;
