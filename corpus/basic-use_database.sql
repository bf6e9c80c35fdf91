USE test;