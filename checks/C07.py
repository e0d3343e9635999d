"""Data handling of initialize and advance: what the solver wrote is stored at the right time, mapped and processed
exactly once per exchange, in the order write mapping, actions, exchange, trimming, read mapping, actions, export.
Gated path summaries of initialize, advance and finalize are compared, effect by effect (condition, range, order,
arguments), with this protocol."""
from check import *
from api import *

MIN = 60
WE = '{CouplingScheme::addComputedTime(_couplingScheme, arg0)}'
DONE = '{CouplingScheme::isTimeWindowComplete(_couplingScheme)}'
HASMAP = '{DataContext::hasMapping(elem(*DataContexts(_accessor)))}'
SUB = '{CouplingScheme::requiresSubsteps(_couplingScheme)}'


def run(ctx):
    ini = ctx.fn(IMPL + 'initialize')
    ctx.spec('initialize', ini, '''
        [meshes before data]
        pre) for _accessor._providedMeshContexts: call Mesh::preprocess(elem(*).mesh)
        bb) for _accessor._providedMeshContexts: call Mesh::computeBoundingBox(elem(*).mesh)
        prep) for _m2ns: call BoundM2N::prepareEstablishment(elem(_m2ns).second) | !{elem(_m2ns).second.m2n._isPrimaryRankConnected}
        con) for _m2ns: call BoundM2N::connectPrimaryRanks(elem(_m2ns).second, _configHash) | !{elem(_m2ns).second.m2n._isPrimaryRankConnected}
        clr) for *_usedMeshContexts*: call MeshContext::clearMappings(impl::getMeshContext(elem(*)))
        cmp) for *_usedMeshContexts*: call Partition::compareBoundingBoxes(impl::getPartition(elem(*)))
        prec) for _m2ns: call BoundM2N::preConnectSecondaryRanks(elem(_m2ns).second)
        comm) for *_usedMeshContexts*: call Partition::communicate(impl::getPartition(elem(*)))
        comp) for *_usedMeshContexts*: call Partition::compute(impl::getPartition(elem(*)))
        alloc) for *_usedMeshContexts*: call Mesh::allocateDataValues(impl::getMesh(elem(*)))
        buf) for *_usedMeshContexts* >> *writeDataContexts*: call WriteDataContext::resizeBufferTo(*) | {(DataContext::getMeshName(elem(*)) == impl::getMesh(elem(*))._name)}
        sec) for _m2ns: call BoundM2N::connectSecondaryRanks(elem(_m2ns).second)
        clean) for _m2ns: call BoundM2N::cleanupEstablishment(elem(_m2ns).second)
        wp) for _accessor._watchPoints: call WatchPoint::initialize(elem(*))
        wi) for _accessor._watchIntegrals: call WatchIntegral::initialize(elem(*))
        [initial data]
        st) for *writeDataContexts*: call WriteDataContext::storeBufferedData(elem(*), 0)
        wmc) for *_writeMappingContexts: call Mapping::computeMapping(elem(*).mapping) | !{elem(*_writeMappingContexts).mapping._hasComputedMapping} & {ParticipantState::hasWriteMappings(_accessor)}
        wm) for *writeDataContexts*: call DataContext::mapData(elem(*), std::nullopt, 1) | {DataContext::hasMapping(elem(*writeDataContexts*))} & {ParticipantState::hasWriteMappings(_accessor)}
        wa) for _accessor._actions: call Action::performAction(elem(*)) @ *WRITE_MAPPING_POST* | {*WRITE_MAPPING_POST*}
        init) call CouplingScheme::initialize(_couplingScheme)
        rmc) for *_readMappingContexts: call Mapping::computeMapping(elem(*).mapping) | !{elem(*_readMappingContexts).mapping._hasComputedMapping} & {ParticipantState::hasReadMappings(_accessor)}
        rm) for *readDataContexts*: call DataContext::mapData(elem(*), std::nullopt, 1) | {DataContext::hasMapping(elem(*readDataContexts*))} & {ParticipantState::hasReadMappings(_accessor)}
        ra) for _accessor._actions: call Action::performAction(elem(*)) @ *READ_MAPPING_POST* | {*READ_MAPPING_POST*}
        ex) call ParticipantState::exportInitial(_accessor) | {ParticipantState::hasExports(_accessor)}
        rst) for *writeDataContexts*: call WriteDataContext::resetBufferedData(elem(*))
        order pre < bb < cmp
        order prep < con < cmp < prec < comm < comp < alloc
        order comp < buf < st
        order clr < comp
        order comp < sec < clean < init
        order comp < wp < ex
        order comp < wi < ex
        order st < wmc < wm < wa < init < rmc < rm < ra < ex
        order st < rst
    ''')
    adv = ctx.fn(IMPL + 'advance')
    B = adv.A.B
    ctx.spec('advance', adv, '''
        [written data]
        jit) for *writeDataContexts*: call WriteDataContext::completeJustInTimeMapping(elem(*)) | WE | SUB
        st) for *writeDataContexts*: call WriteDataContext::storeBufferedData(elem(*), CouplingScheme::getTime(_couplingScheme)) | WE | SUB
        rst) for *writeDataContexts*: call WriteDataContext::resetBufferedData(elem(*))
        act) call CouplingScheme::addComputedTime(_couplingScheme, arg0)
        wmc) for *_writeMappingContexts: call Mapping::computeMapping(elem(*).mapping) | WE & !{elem(*_writeMappingContexts).mapping._hasComputedMapping} & {ParticipantState::hasWriteMappings(_accessor)}
        wm) for *writeDataContexts*: call DataContext::mapData(elem(*writeDataContexts*), CouplingScheme::getTimeWindowStart(_couplingScheme), 0) | WE & HASMAP & {ParticipantState::hasWriteMappings(_accessor)}
        wa) for _accessor._actions: call Action::performAction(elem(*)) @ *WRITE_MAPPING_POST* | WE & {*WRITE_MAPPING_POST*}
        order act < jit < st < wm < wa
        order st < rst
        order wmc < wm
        [exchange]
        f1) call CouplingScheme::firstSynchronization(_couplingScheme, *)
        f2) call CouplingScheme::firstExchange(_couplingScheme)
        f3) call CouplingScheme::secondSynchronization(_couplingScheme)
        f4) call CouplingScheme::secondExchange(_couplingScheme)
        order wa < f1 < f2 < f3 < f4
        [trimming]
        trb) for * >> Mesh::availableData*: call Waveform::trimBefore(Mesh::data(*)._waveform, CouplingScheme::getTimeWindowStart(_couplingScheme)) | WE & DONE
        tra) for *writeDataContexts*: call WriteDataContext::trimAfter(elem(*), CouplingScheme::getTime(_couplingScheme)) | WE & !DONE
        clf) for *readDataContexts*: call ReadDataContext::clearToDataFor(elem(*), CouplingScheme::implicitDataToReceive(_couplingScheme)) | WE & DONE & HASMAP
        trr) for *readDataContexts*: call ReadDataContext::trimToDataAfterFor(elem(*), CouplingScheme::implicitDataToReceive(_couplingScheme), CouplingScheme::getTime(_couplingScheme)) | WE & !DONE & HASMAP
        [received data]
        rmc) for *_readMappingContexts: call Mapping::computeMapping(elem(*).mapping) | WE & !{elem(*_readMappingContexts).mapping._hasComputedMapping} & {ParticipantState::hasReadMappings(_accessor)}
        rm) for *readDataContexts*: call DataContext::mapData(elem(*readDataContexts*), std::nullopt, 0) | WE & HASMAP & {ParticipantState::hasReadMappings(_accessor)}
        ra) for _accessor._actions: call Action::performAction(elem(*)) @ *READ_MAPPING_POST* | WE & {*READ_MAPPING_POST*}
        ivr) for *readDataContexts*: call DataContext::invalidateMappingCache(elem(*readDataContexts*)) | WE
        ivw) for *writeDataContexts*: call DataContext::invalidateMappingCache(elem(*writeDataContexts*)) | WE
        rgr) for *readDataContexts*: call DataContext::resetInitialGuesses(elem(*readDataContexts*)) | WE & DONE
        rgw) for *writeDataContexts*: call DataContext::resetInitialGuesses(elem(*writeDataContexts*)) | WE & DONE
        order f4 < trb
        order f4 < tra
        order f4 < clf < rm
        order f4 < trr < rm
        order f4 < rmc < rm < ra < rgr
        order rm < ivr
        order wm < ivw
        [export]
        ex) call ParticipantState::exportIntermediate(_accessor, init(*IntermediateExport, (-1*1+CouplingScheme::getTimeWindows(_couplingScheme), *, CouplingScheme::getTime(_couplingScheme), CouplingScheme::isTimeWindowComplete(_couplingScheme), <!CouplingScheme::isCouplingOngoing(_couplingScheme)>))) | WE & {ParticipantState::hasExports(_accessor)}
        order ra < ex
        fresh st CouplingScheme::getTime(_couplingScheme) after act
        fresh wm CouplingScheme::getTimeWindowStart(_couplingScheme) before f2
        [as of after the exchange]
        fresh trb CouplingScheme::getTimeWindowStart(_couplingScheme) after f4
        fresh trb DONE after f4
        fresh tra DONE after f4
        fresh tra CouplingScheme::getTime(_couplingScheme) after f4
        fresh trr CouplingScheme::getTime(_couplingScheme) after f4
        fresh trr DONE after f4
        fresh clf DONE after f4
        fresh rgr DONE after f4
        fresh rgw DONE after f4
        fresh ex CouplingScheme::getTimeWindows(_couplingScheme) after f4
        fresh ex DONE after f4
        fresh ex CouplingScheme::isCouplingOngoing(_couplingScheme) after f4
        fresh ex CouplingScheme::getTime(_couplingScheme) after f4
        [export]
        n) store ParticipantImpl::_numberAdvanceCalls(*) = 1+_numberAdvanceCalls
    '''.replace('DONE after', DONE[1:-1] + ' after').replace('WE', WE).replace('DONE', DONE).replace('HASMAP', HASMAP).replace('SUB', SUB))
