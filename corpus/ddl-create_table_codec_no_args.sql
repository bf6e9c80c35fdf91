CREATE TABLE shark_attacks (
    timestamp DateTime CODEC(DoubleDelta),
);