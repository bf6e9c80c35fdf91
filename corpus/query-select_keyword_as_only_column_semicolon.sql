SELECT case;
