//! MPI functions that the simulation does not model: calling one ends the run as a
//! harness error (never as a violation).
use crate::mpi::unsupported;
macro_rules! stub {($($n:ident)*) => {$(
    #[no_mangle]
    pub extern "C" fn $n() -> ! { unsupported(stringify!($n)) }
)*}}
stub! {
    MPI_Bsend
    MPI_Buffer_attach
    MPI_Buffer_detach
    MPI_Cancel
    MPI_Cart_coords
    MPI_Cart_create
    MPI_Cart_get
    MPI_Cart_map
    MPI_Cart_rank
    MPI_Cart_shift
    MPI_Cart_sub
    MPI_Cartdim_get
    MPI_Comm_create
    MPI_Comm_create_group
    MPI_Comm_get_name
    MPI_Comm_group
    MPI_Comm_set_name
    MPI_Comm_split
    MPI_Comm_split_type
    MPI_Get_address
    MPI_Get_library_version
    MPI_Group_compare
    MPI_Group_difference
    MPI_Group_excl
    MPI_Group_free
    MPI_Group_incl
    MPI_Group_intersection
    MPI_Group_rank
    MPI_Group_size
    MPI_Group_translate_ranks
    MPI_Group_union
    MPI_Iallreduce
    MPI_Ibsend
    MPI_Iexscan
    MPI_Ireduce
    MPI_Ireduce_scatter_block
    MPI_Iscan
    MPI_Op_commutative
    MPI_Op_create
    MPI_Op_free
    MPI_Pack
    MPI_Pack_size
    MPI_Reduce_local
    MPI_Topo_test
    MPI_Type_commit
    MPI_Type_contiguous
    MPI_Type_create_hindexed
    MPI_Type_create_hindexed_block
    MPI_Type_create_hvector
    MPI_Type_create_indexed_block
    MPI_Type_create_struct
    MPI_Type_dup
    MPI_Type_free
    MPI_Type_indexed
    MPI_Type_vector
    MPI_Unpack
}
