-- Tags: no-parallel

ALTER ROLE r1_01293;
ALTER ROLE r1_01293 ON CLUSTER cluster_1 RENAME TO r2_01293;
ALTER ROLE r1_01293 RENAME TO r2_01293, r3_01293 RENAME TO r4_01293;
ALTER ROLE r1_01293 SETTINGS NONE;
ALTER ROLE r2_01293 SETTINGS PROFILE 'default';
ALTER ROLE r3_01293 SETTINGS max_memory_usage=5000000;
ALTER ROLE r4_01293 SETTINGS max_memory_usage MIN=5000000;
ALTER ROLE r5_01293 SETTINGS max_memory_usage MAX=5000000;
ALTER ROLE r6_01293 SETTINGS max_memory_usage CONST;
ALTER ROLE r7_01293 SETTINGS max_memory_usage WRITABLE;
ALTER ROLE r8_01293 SETTINGS max_memory_usage=5000000 MIN 4000000 MAX 6000000 CONST;
ALTER ROLE r9_01293 SETTINGS PROFILE 'default', max_memory_usage=5000000 WRITABLE;
ALTER ROLE r1_01293, r2_01293;
ALTER ROLE r1_01293 SETTINGS readonly=1;
ALTER ROLE r2_01293 SETTINGS PROFILE 'default';
ALTER ROLE r3_01293 SETTINGS max_memory_usage=5000000 MIN 4000000 MAX 6000000 WRITABLE;
ALTER ROLE r4_01293 SETTINGS PROFILE 'default', max_memory_usage=5000000, readonly=1;
ALTER ROLE r5_01293 SETTINGS NONE;
ALTER ROLE r1_01293@'%';
ALTER ROLE r2_01293@'%.myhost.com';