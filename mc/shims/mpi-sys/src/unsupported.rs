//! Calls nothing here needs; meeting one is an error of the machinery, never a verdict.
#![allow(unused_variables)]
use super::*;

pub unsafe fn MPI_Alltoallv(sendbuf: *const c_void, sendcounts: *const c_int, sdispls: *const c_int, sendtype: MPI_Datatype, recvbuf: *mut c_void, recvcounts: *const c_int, rdispls: *const c_int, recvtype: MPI_Datatype, comm: MPI_Comm) -> c_int {
    unsupported("MPI_Alltoallv")
}
pub unsafe fn MPI_Alltoallw(sendbuf: *const c_void, sendcounts: *const c_int, sdispls: *const c_int, sendtypes: *const MPI_Datatype, recvbuf: *mut c_void, recvcounts: *const c_int, rdispls: *const c_int, recvtypes: *const MPI_Datatype, comm: MPI_Comm) -> c_int {
    unsupported("MPI_Alltoallw")
}
pub unsafe fn MPI_Bsend_init(buf: *const c_void, count: c_int, datatype: MPI_Datatype, dest: c_int, tag: c_int, comm: MPI_Comm, request: *mut MPI_Request) -> c_int {
    unsupported("MPI_Bsend_init")
}
pub unsafe fn MPI_Buffer_detach(buffer: *mut c_void, size: *mut c_int) -> c_int {
    unsupported("MPI_Buffer_detach")
}
pub unsafe fn MPI_Cancel(request: *mut MPI_Request) -> c_int {
    unsupported("MPI_Cancel")
}
pub unsafe fn MPI_Cart_coords(comm: MPI_Comm, rank: c_int, maxdims: c_int, coords: *mut c_int) -> c_int {
    unsupported("MPI_Cart_coords")
}
pub unsafe fn MPI_Cart_create(old_comm: MPI_Comm, ndims: c_int, dims: *const c_int, periods: *const c_int, reorder: c_int, comm_cart: *mut MPI_Comm) -> c_int {
    unsupported("MPI_Cart_create")
}
pub unsafe fn MPI_Cart_get(comm: MPI_Comm, maxdims: c_int, dims: *mut c_int, periods: *mut c_int, coords: *mut c_int) -> c_int {
    unsupported("MPI_Cart_get")
}
pub unsafe fn MPI_Cart_map(comm: MPI_Comm, ndims: c_int, dims: *const c_int, periods: *const c_int, newrank: *mut c_int) -> c_int {
    unsupported("MPI_Cart_map")
}
pub unsafe fn MPI_Cart_rank(comm: MPI_Comm, coords: *const c_int, rank: *mut c_int) -> c_int {
    unsupported("MPI_Cart_rank")
}
pub unsafe fn MPI_Cart_shift(comm: MPI_Comm, direction: c_int, disp: c_int, rank_source: *mut c_int, rank_dest: *mut c_int) -> c_int {
    unsupported("MPI_Cart_shift")
}
pub unsafe fn MPI_Cart_sub(comm: MPI_Comm, remain_dims: *const c_int, new_comm: *mut MPI_Comm) -> c_int {
    unsupported("MPI_Cart_sub")
}
pub unsafe fn MPI_Cartdim_get(comm: MPI_Comm, ndims: *mut c_int) -> c_int {
    unsupported("MPI_Cartdim_get")
}
pub unsafe fn MPI_Comm_create(comm: MPI_Comm, group: MPI_Group, newcomm: *mut MPI_Comm) -> c_int {
    unsupported("MPI_Comm_create")
}
pub unsafe fn MPI_Comm_create_group(comm: MPI_Comm, group: MPI_Group, tag: c_int, newcomm: *mut MPI_Comm) -> c_int {
    unsupported("MPI_Comm_create_group")
}
pub unsafe fn MPI_Comm_dup_with_info(comm: MPI_Comm, info: MPI_Info, newcomm: *mut MPI_Comm) -> c_int {
    unsupported("MPI_Comm_dup_with_info")
}
pub unsafe fn MPI_Comm_get_info(comm: MPI_Comm, info_used: *mut MPI_Info) -> c_int {
    unsupported("MPI_Comm_get_info")
}
pub unsafe fn MPI_Comm_get_name(comm: MPI_Comm, comm_name: *mut c_char, resultlen: *mut c_int) -> c_int {
    unsupported("MPI_Comm_get_name")
}
pub unsafe fn MPI_Comm_group(comm: MPI_Comm, group: *mut MPI_Group) -> c_int {
    unsupported("MPI_Comm_group")
}
pub unsafe fn MPI_Comm_idup(comm: MPI_Comm, newcomm: *mut MPI_Comm, request: *mut MPI_Request) -> c_int {
    unsupported("MPI_Comm_idup")
}
pub unsafe fn MPI_Comm_set_info(comm: MPI_Comm, info: MPI_Info) -> c_int {
    unsupported("MPI_Comm_set_info")
}
pub unsafe fn MPI_Comm_split_type(comm: MPI_Comm, split_type: c_int, key: c_int, info: MPI_Info, newcomm: *mut MPI_Comm) -> c_int {
    unsupported("MPI_Comm_split_type")
}
pub unsafe fn MPI_Get_elements(status: *const MPI_Status, datatype: MPI_Datatype, count: *mut c_int) -> c_int {
    unsupported("MPI_Get_elements")
}
pub unsafe fn MPI_Get_elements_x(status: *const MPI_Status, datatype: MPI_Datatype, count: *mut MPI_Count) -> c_int {
    unsupported("MPI_Get_elements_x")
}
pub unsafe fn MPI_Group_compare(group1: MPI_Group, group2: MPI_Group, result: *mut c_int) -> c_int {
    unsupported("MPI_Group_compare")
}
pub unsafe fn MPI_Group_difference(group1: MPI_Group, group2: MPI_Group, newgroup: *mut MPI_Group) -> c_int {
    unsupported("MPI_Group_difference")
}
pub unsafe fn MPI_Group_excl(group: MPI_Group, n: c_int, ranks: *const c_int, newgroup: *mut MPI_Group) -> c_int {
    unsupported("MPI_Group_excl")
}
pub unsafe fn MPI_Group_free(group: *mut MPI_Group) -> c_int {
    unsupported("MPI_Group_free")
}
pub unsafe fn MPI_Group_incl(group: MPI_Group, n: c_int, ranks: *const c_int, newgroup: *mut MPI_Group) -> c_int {
    unsupported("MPI_Group_incl")
}
pub unsafe fn MPI_Group_intersection(group1: MPI_Group, group2: MPI_Group, newgroup: *mut MPI_Group) -> c_int {
    unsupported("MPI_Group_intersection")
}
pub unsafe fn MPI_Group_range_excl(group: MPI_Group, n: c_int, ranges: *mut [c_int; 3usize], newgroup: *mut MPI_Group) -> c_int {
    unsupported("MPI_Group_range_excl")
}
pub unsafe fn MPI_Group_range_incl(group: MPI_Group, n: c_int, ranges: *mut [c_int; 3usize], newgroup: *mut MPI_Group) -> c_int {
    unsupported("MPI_Group_range_incl")
}
pub unsafe fn MPI_Group_rank(group: MPI_Group, rank: *mut c_int) -> c_int {
    unsupported("MPI_Group_rank")
}
pub unsafe fn MPI_Group_size(group: MPI_Group, size: *mut c_int) -> c_int {
    unsupported("MPI_Group_size")
}
pub unsafe fn MPI_Group_translate_ranks(group1: MPI_Group, n: c_int, ranks1: *const c_int, group2: MPI_Group, ranks2: *mut c_int) -> c_int {
    unsupported("MPI_Group_translate_ranks")
}
pub unsafe fn MPI_Group_union(group1: MPI_Group, group2: MPI_Group, newgroup: *mut MPI_Group) -> c_int {
    unsupported("MPI_Group_union")
}
pub unsafe fn MPI_Iallgather(sendbuf: *const c_void, sendcount: c_int, sendtype: MPI_Datatype, recvbuf: *mut c_void, recvcount: c_int, recvtype: MPI_Datatype, comm: MPI_Comm, request: *mut MPI_Request) -> c_int {
    unsupported("MPI_Iallgather")
}
pub unsafe fn MPI_Iallgatherv(sendbuf: *const c_void, sendcount: c_int, sendtype: MPI_Datatype, recvbuf: *mut c_void, recvcounts: *const c_int, displs: *const c_int, recvtype: MPI_Datatype, comm: MPI_Comm, request: *mut MPI_Request) -> c_int {
    unsupported("MPI_Iallgatherv")
}
pub unsafe fn MPI_Ialltoall(sendbuf: *const c_void, sendcount: c_int, sendtype: MPI_Datatype, recvbuf: *mut c_void, recvcount: c_int, recvtype: MPI_Datatype, comm: MPI_Comm, request: *mut MPI_Request) -> c_int {
    unsupported("MPI_Ialltoall")
}
pub unsafe fn MPI_Ialltoallv(sendbuf: *const c_void, sendcounts: *const c_int, sdispls: *const c_int, sendtype: MPI_Datatype, recvbuf: *mut c_void, recvcounts: *const c_int, rdispls: *const c_int, recvtype: MPI_Datatype, comm: MPI_Comm, request: *mut MPI_Request) -> c_int {
    unsupported("MPI_Ialltoallv")
}
pub unsafe fn MPI_Ialltoallw(sendbuf: *const c_void, sendcounts: *const c_int, sdispls: *const c_int, sendtypes: *const MPI_Datatype, recvbuf: *mut c_void, recvcounts: *const c_int, rdispls: *const c_int, recvtypes: *const MPI_Datatype, comm: MPI_Comm, request: *mut MPI_Request) -> c_int {
    unsupported("MPI_Ialltoallw")
}
pub unsafe fn MPI_Iexscan(sendbuf: *const c_void, recvbuf: *mut c_void, count: c_int, datatype: MPI_Datatype, op: MPI_Op, comm: MPI_Comm, request: *mut MPI_Request) -> c_int {
    unsupported("MPI_Iexscan")
}
pub unsafe fn MPI_Igather(sendbuf: *const c_void, sendcount: c_int, sendtype: MPI_Datatype, recvbuf: *mut c_void, recvcount: c_int, recvtype: MPI_Datatype, root: c_int, comm: MPI_Comm, request: *mut MPI_Request) -> c_int {
    unsupported("MPI_Igather")
}
pub unsafe fn MPI_Igatherv(sendbuf: *const c_void, sendcount: c_int, sendtype: MPI_Datatype, recvbuf: *mut c_void, recvcounts: *const c_int, displs: *const c_int, recvtype: MPI_Datatype, root: c_int, comm: MPI_Comm, request: *mut MPI_Request) -> c_int {
    unsupported("MPI_Igatherv")
}
pub unsafe fn MPI_Ireduce_scatter(sendbuf: *const c_void, recvbuf: *mut c_void, recvcounts: *const c_int, datatype: MPI_Datatype, op: MPI_Op, comm: MPI_Comm, request: *mut MPI_Request) -> c_int {
    unsupported("MPI_Ireduce_scatter")
}
pub unsafe fn MPI_Ireduce_scatter_block(sendbuf: *const c_void, recvbuf: *mut c_void, recvcount: c_int, datatype: MPI_Datatype, op: MPI_Op, comm: MPI_Comm, request: *mut MPI_Request) -> c_int {
    unsupported("MPI_Ireduce_scatter_block")
}
pub unsafe fn MPI_Irsend(buf: *const c_void, count: c_int, datatype: MPI_Datatype, dest: c_int, tag: c_int, comm: MPI_Comm, request: *mut MPI_Request) -> c_int {
    unsupported("MPI_Irsend")
}
pub unsafe fn MPI_Iscan(sendbuf: *const c_void, recvbuf: *mut c_void, count: c_int, datatype: MPI_Datatype, op: MPI_Op, comm: MPI_Comm, request: *mut MPI_Request) -> c_int {
    unsupported("MPI_Iscan")
}
pub unsafe fn MPI_Iscatter(sendbuf: *const c_void, sendcount: c_int, sendtype: MPI_Datatype, recvbuf: *mut c_void, recvcount: c_int, recvtype: MPI_Datatype, root: c_int, comm: MPI_Comm, request: *mut MPI_Request) -> c_int {
    unsupported("MPI_Iscatter")
}
pub unsafe fn MPI_Iscatterv(sendbuf: *const c_void, sendcounts: *const c_int, displs: *const c_int, sendtype: MPI_Datatype, recvbuf: *mut c_void, recvcount: c_int, recvtype: MPI_Datatype, root: c_int, comm: MPI_Comm, request: *mut MPI_Request) -> c_int {
    unsupported("MPI_Iscatterv")
}
pub unsafe fn MPI_Pack(inbuf: *const c_void, incount: c_int, datatype: MPI_Datatype, outbuf: *mut c_void, outsize: c_int, position: *mut c_int, comm: MPI_Comm) -> c_int {
    unsupported("MPI_Pack")
}
pub unsafe fn MPI_Pack_external(datarep: *const c_char, inbuf: *const c_void, incount: c_int, datatype: MPI_Datatype, outbuf: *mut c_void, outsize: MPI_Aint, position: *mut MPI_Aint) -> c_int {
    unsupported("MPI_Pack_external")
}
pub unsafe fn MPI_Pack_external_size(datarep: *const c_char, incount: c_int, datatype: MPI_Datatype, size: *mut MPI_Aint) -> c_int {
    unsupported("MPI_Pack_external_size")
}
pub unsafe fn MPI_Pack_size(incount: c_int, datatype: MPI_Datatype, comm: MPI_Comm, size: *mut c_int) -> c_int {
    unsupported("MPI_Pack_size")
}
pub unsafe fn MPI_Recv_init(buf: *mut c_void, count: c_int, datatype: MPI_Datatype, source: c_int, tag: c_int, comm: MPI_Comm, request: *mut MPI_Request) -> c_int {
    unsupported("MPI_Recv_init")
}
pub unsafe fn MPI_Reduce_scatter(sendbuf: *const c_void, recvbuf: *mut c_void, recvcounts: *const c_int, datatype: MPI_Datatype, op: MPI_Op, comm: MPI_Comm) -> c_int {
    unsupported("MPI_Reduce_scatter")
}
pub unsafe fn MPI_Reduce_scatter_block(sendbuf: *const c_void, recvbuf: *mut c_void, recvcount: c_int, datatype: MPI_Datatype, op: MPI_Op, comm: MPI_Comm) -> c_int {
    unsupported("MPI_Reduce_scatter_block")
}
pub unsafe fn MPI_Request_get_status(request: MPI_Request, flag: *mut c_int, status: *mut MPI_Status) -> c_int {
    unsupported("MPI_Request_get_status")
}
pub unsafe fn MPI_Rsend_init(buf: *const c_void, count: c_int, datatype: MPI_Datatype, dest: c_int, tag: c_int, comm: MPI_Comm, request: *mut MPI_Request) -> c_int {
    unsupported("MPI_Rsend_init")
}
pub unsafe fn MPI_Send_init(buf: *const c_void, count: c_int, datatype: MPI_Datatype, dest: c_int, tag: c_int, comm: MPI_Comm, request: *mut MPI_Request) -> c_int {
    unsupported("MPI_Send_init")
}
pub unsafe fn MPI_Ssend_init(buf: *const c_void, count: c_int, datatype: MPI_Datatype, dest: c_int, tag: c_int, comm: MPI_Comm, request: *mut MPI_Request) -> c_int {
    unsupported("MPI_Ssend_init")
}
pub unsafe fn MPI_Start(request: *mut MPI_Request) -> c_int {
    unsupported("MPI_Start")
}
pub unsafe fn MPI_Startall(count: c_int, array_of_requests: *mut MPI_Request) -> c_int {
    unsupported("MPI_Startall")
}
pub unsafe fn MPI_Test_cancelled(status: *const MPI_Status, flag: *mut c_int) -> c_int {
    unsupported("MPI_Test_cancelled")
}
pub unsafe fn MPI_Testall(count: c_int, array_of_requests: *mut MPI_Request, flag: *mut c_int, array_of_statuses: *mut MPI_Status) -> c_int {
    unsupported("MPI_Testall")
}
pub unsafe fn MPI_Testany(count: c_int, array_of_requests: *mut MPI_Request, index: *mut c_int, flag: *mut c_int, status: *mut MPI_Status) -> c_int {
    unsupported("MPI_Testany")
}
pub unsafe fn MPI_Testsome(incount: c_int, array_of_requests: *mut MPI_Request, outcount: *mut c_int, array_of_indices: *mut c_int, array_of_statuses: *mut MPI_Status) -> c_int {
    unsupported("MPI_Testsome")
}
pub unsafe fn MPI_Topo_test(comm: MPI_Comm, status: *mut c_int) -> c_int {
    unsupported("MPI_Topo_test")
}
pub unsafe fn MPI_Type_create_darray(size: c_int, rank: c_int, ndims: c_int, gsize_array: *const c_int, distrib_array: *const c_int, darg_array: *const c_int, psize_array: *const c_int, order: c_int, oldtype: MPI_Datatype, newtype: *mut MPI_Datatype) -> c_int {
    unsupported("MPI_Type_create_darray")
}
pub unsafe fn MPI_Type_create_hindexed(count: c_int, array_of_blocklengths: *const c_int, array_of_displacements: *const MPI_Aint, oldtype: MPI_Datatype, newtype: *mut MPI_Datatype) -> c_int {
    unsupported("MPI_Type_create_hindexed")
}
pub unsafe fn MPI_Type_create_hindexed_block(count: c_int, blocklength: c_int, array_of_displacements: *const MPI_Aint, oldtype: MPI_Datatype, newtype: *mut MPI_Datatype) -> c_int {
    unsupported("MPI_Type_create_hindexed_block")
}
pub unsafe fn MPI_Type_create_hvector(count: c_int, blocklength: c_int, stride: MPI_Aint, oldtype: MPI_Datatype, newtype: *mut MPI_Datatype) -> c_int {
    unsupported("MPI_Type_create_hvector")
}
pub unsafe fn MPI_Type_create_indexed_block(count: c_int, blocklength: c_int, array_of_displacements: *const c_int, oldtype: MPI_Datatype, newtype: *mut MPI_Datatype) -> c_int {
    unsupported("MPI_Type_create_indexed_block")
}
pub unsafe fn MPI_Type_create_subarray(ndims: c_int, size_array: *const c_int, subsize_array: *const c_int, start_array: *const c_int, order: c_int, oldtype: MPI_Datatype, newtype: *mut MPI_Datatype) -> c_int {
    unsupported("MPI_Type_create_subarray")
}
pub unsafe fn MPI_Type_get_contents(mtype: MPI_Datatype, max_integers: c_int, max_addresses: c_int, max_datatypes: c_int, array_of_integers: *mut c_int, array_of_addresses: *mut MPI_Aint, array_of_datatypes: *mut MPI_Datatype) -> c_int {
    unsupported("MPI_Type_get_contents")
}
pub unsafe fn MPI_Type_get_envelope(type_: MPI_Datatype, num_integers: *mut c_int, num_addresses: *mut c_int, num_datatypes: *mut c_int, combiner: *mut c_int) -> c_int {
    unsupported("MPI_Type_get_envelope")
}
pub unsafe fn MPI_Type_get_extent_x(type_: MPI_Datatype, lb: *mut MPI_Count, extent: *mut MPI_Count) -> c_int {
    unsupported("MPI_Type_get_extent_x")
}
pub unsafe fn MPI_Type_get_true_extent(datatype: MPI_Datatype, true_lb: *mut MPI_Aint, true_extent: *mut MPI_Aint) -> c_int {
    unsupported("MPI_Type_get_true_extent")
}
pub unsafe fn MPI_Type_get_true_extent_x(datatype: MPI_Datatype, true_lb: *mut MPI_Count, true_extent: *mut MPI_Count) -> c_int {
    unsupported("MPI_Type_get_true_extent_x")
}
pub unsafe fn MPI_Type_indexed(count: c_int, array_of_blocklengths: *const c_int, array_of_displacements: *const c_int, oldtype: MPI_Datatype, newtype: *mut MPI_Datatype) -> c_int {
    unsupported("MPI_Type_indexed")
}
pub unsafe fn MPI_Type_size_x(type_: MPI_Datatype, size: *mut MPI_Count) -> c_int {
    unsupported("MPI_Type_size_x")
}
pub unsafe fn MPI_Unpack(inbuf: *const c_void, insize: c_int, position: *mut c_int, outbuf: *mut c_void, outcount: c_int, datatype: MPI_Datatype, comm: MPI_Comm) -> c_int {
    unsupported("MPI_Unpack")
}
pub unsafe fn MPI_Unpack_external(datarep: *const c_char, inbuf: *const c_void, insize: MPI_Aint, position: *mut MPI_Aint, outbuf: *mut c_void, outcount: c_int, datatype: MPI_Datatype) -> c_int {
    unsupported("MPI_Unpack_external")
}
pub unsafe fn MPI_Waitsome(incount: c_int, array_of_requests: *mut MPI_Request, outcount: *mut c_int, array_of_indices: *mut c_int, array_of_statuses: *mut MPI_Status) -> c_int {
    unsupported("MPI_Waitsome")
}
