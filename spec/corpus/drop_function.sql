-- https://www.postgresql.jp/docs/11/sql-dropfunction.html
DROP FUNCTION sqrt(integer);
DROP FUNCTION sqrt(integer), sqrt(bigint);
DROP FUNCTION update_employee_salaries;
DROP FUNCTION update_employee_salaries();
