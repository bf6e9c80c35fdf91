CREATE NAMED COLLECTION test_collection
AS url = 'http://example.com' OVERRIDABLE,
access_key = 'key123' NOT OVERRIDABLE,
secret_key = 'secret456';
