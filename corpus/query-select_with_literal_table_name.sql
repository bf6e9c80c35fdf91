select table_name from "information_schema"."tables" limit 1;
