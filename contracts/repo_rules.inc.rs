//@methods
begin/0 => w_begin
commit/0 => w_commit
fetch_one/1 => w_fetch_one
fetch_all/1 => w_fetch_all
fetch/1 => w_fetch_all
execute/1 => w_execute
try_collect/0 => DROP
as_str/0 => REF
push_values/2 => FOREACH row_begin row_end
join/1 => rx_join_by
separated/1 => mut_separated
replace/2 => rx_replace_str
expect/1 => own_expect
into_iter/0 => DROP
//@calls
sqlx::query => sql_query
sqlx::query_as => sql_query_as
serde_json::to_string => json_string
//@rename
QueryBuilder => Builder
//@paths
Repo::QUERIES => rx_queries()
//@types
QueryBuilder<_> => Builder
//@split
push_bind push
