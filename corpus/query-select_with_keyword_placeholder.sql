SELECT {name :String};
SELECT toString({name :String});

