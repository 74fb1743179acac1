//@types
Arc<dyn ObjectStore> => InnerStore
Arc<dyn LogStore> => LogStore
PrefixStore<InternalObjectStore> => PrefixStore
object_store::path::Path => Path
object_store::Result<PutResult> => Result<PutResult>
object_store::Result<GetResult> => Result<GetResult>
object_store::Result<ObjectMeta> => Result<ObjectMeta>
object_store::Result<ListResult> => Result<ListResult>
object_store::Result<()> => Result<()>
object_store::Result<Bytes> => Result<Bytes>
object_store::Result<Box<dyn MultipartUpload>> => Result<Upload>
Result<Box<dyn MultipartUpload>> => Result<Upload>
BoxStream<'a, Result<Path>> => PathStream
BoxStream<'a, object_store::Result<object_store::path::Path>> => PathStream
BoxStream<'_, Result<ObjectMeta>> => MetaStream
BoxStream<'_, object_store::Result<ObjectMeta>> => MetaStream
Range<usize> => core::ops::Range<usize>
//@paths
object_store::Error::NotFound => StoreError::NotFound
object_store::Error::Generic => StoreError::Generic
object_store::PutMode::Overwrite => PutMode::Overwrite
object_store::PutMode::Create => PutMode::Create
Error::Generic => StoreError::Generic
//@methods
log_object_store_outbound_request/3 => wr_metric
put/2 => wr_put
put_opts/3 => wr_put_opts
put_multipart/1 => wr_put_multipart
put_multipart_opts/2 => wr_put_multipart_opts
get/1 => wr_get
get_opts/2 => wr_get_opts
get_range/2 => wr_get_range
head/1 => wr_head
delete/1 => wr_delete
delete_stream/1 => wr_delete_stream
list/1 => wr_list
list_with_delimiter/1 => wr_list_with_delimiter
copy/2 => wr_copy
copy_if_not_exists/2 => wr_copy_if_not_exists
rename/2 => wr_rename
rename_if_not_exists/2 => wr_rename_if_not_exists
next/0 => mut_next
