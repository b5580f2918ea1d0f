-- https://www.postgresql.jp/docs/9.2/sql-droptable.html
DROP TABLE films, distributors;
