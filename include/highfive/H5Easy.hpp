// Names only: samurai/mr/adapt.hpp includes samurai/hdf5.hpp, whose HighFive dependency is not installed here. No contract calls
// anything of it; output to HDF5 files is outside every contract.
#pragma once
#include <string>
#include <vector>

namespace HighFive
{
    struct FileAccessProps
    {
        template <class T>
        void add(T&&);
    };

    struct DataTransferProps
    {
        template <class T>
        void add(T&&);
    };

    struct DataSpace
    {
        DataSpace(const std::vector<std::size_t>&);
    };

    template <class T>
    struct AtomicType
    {
    };

    struct DataSet
    {
        template <class... A>
        void write_raw(A&&...);
        DataSet select(const std::vector<std::size_t>&, const std::vector<std::size_t>&);
    };

    struct File
    {
        enum
        {
            Overwrite
        };

        template <class... A>
        File(A&&...);
        template <class T, class... A>
        DataSet createDataSet(A&&...);
    };
}

namespace H5Easy
{
    template <class... A>
    void dump(A&&...);
}
