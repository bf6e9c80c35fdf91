SELECT field0, field1 as x, field2 y from events;