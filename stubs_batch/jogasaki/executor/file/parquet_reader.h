#pragma once
#include <jogasaki/executor/file/file_reader.h>
namespace jogasaki::executor::file { class parquet_reader : public file_reader { public: static std::shared_ptr<parquet_reader> open(std::string_view path, reader_option const* opt, std::size_t row_group); }; }
