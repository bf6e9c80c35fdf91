ALTER TABLE test ATTACH PARTITION '20210114';
ALTER TABLE test ATTACH PARTITION '20210114' FROM test1;
ALTER TABLE test ATTACH PARTITION ID '20210114';

