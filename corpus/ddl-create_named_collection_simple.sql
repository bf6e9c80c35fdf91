CREATE NAMED COLLECTION my_collection
AS key1 = 'value1',
key2 = 'value2';
