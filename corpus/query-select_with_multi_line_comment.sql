select
    -- first line
    -- second line
    *
from
    t0